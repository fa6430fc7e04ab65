# inside a slot with the mutated build: camp.py IDSFILE OUT WORKERS RUNS [all]
import sys,subprocess,json,os,threading,queue,time
ids=[l.split('\t') for l in open(sys.argv[1]).read().splitlines()]
out=open(sys.argv[2],'a'); nw=int(sys.argv[3]); runs=int(sys.argv[4]); allc=len(sys.argv)>5
done=set()
try: done={json.loads(l)['id'] for l in open(sys.argv[2])}
except Exception: pass
MAP=[('rustls-graviola/src/aead','C16 C11 C01'),('rustls-graviola/src/kx','C12 C11 C01'),('rustls-graviola/src/sign','C13 C15 C04 C01 C11'),('rustls-graviola/src/verify','C15 C11'),('ticketer','C10 C08 C14 C01'),
('rustls-graviola','C16 C07 C11'),('asn1','C13 C15'),('pkcs8','C13'),('high/rsa','C13 C15 C05 C03 C04'),('high/ecdsa','C04 C15 C13 C02 C01'),('high/ed25519','C15 C13 C02'),('pkcs1','C05 C15 C04'),('drbg','C04'),('high/curve','C15 C04 C13'),
('hash','C07 C15'),('ghash','C06 C14 C09'),('hmac','C07 C16'),('hkdf','C07 C16'),('sha3','C12 C02 C07'),('sha','C07 C09'),('aes','C06 C09 C14 C16'),('chacha','C06 C09 C14 C16'),('poly','C06 C09 C14'),('gcm','C06 C09 C14'),
('mlkem','C12 C02 C14 C09'),('x25519','C12 C02 C14'),('ed25519','C15 C02 C13 C14'),('p256','C12 C02 C15 C04 C14'),('p384','C12 C02 C15 C04 C14'),('generate','C03'),('rsa_priv','C05 C13 C03 C14'),('rsa_pub','C15 C05 C13'),('posint','C05 C13 C03 C15 C14'),
('zeroise','C14'),('entry','C14 C09'),('cpu','C09 C14'),('rng','C01 C02'),('ct','C12 C06'),('',"C07 C06 C12")]
ALL=['C%02d'%i for i in range(1,17)]
q=queue.Queue()
for l in ids:
    if l[0] not in done: q.put(l)
lock=threading.Lock()
def one(c,mid,runs,cap,first=0):
    e=dict(os.environ,GSIM_MUT=mid)
    try: p=subprocess.run(['/verif/target/debug/gsim','worker',c,'0','1','1','quick',str(runs),str(cap),str(first)],capture_output=True,text=True,env=e,timeout=cap+170)
    except subprocess.TimeoutExpired: return 'timeout'
    for l in p.stdout.splitlines():
        if l.startswith('FAIL'):
            d=json.loads(l[5:]); return f"{d['run']} {d['fail']['class']}: {d['fail']['detail'][:100]}"
        if l.startswith('AGG'): return None
    return f'nores rc={p.returncode} {p.stderr[-100:]}'
def w():
    while True:
        try: l=q.get_nowait()
        except queue.Empty: return
        cs=next(c for k,c in MAP if k in l[1]).split()
        if allc: cs=cs+[c for c in ALL if c not in cs]
        r=None;t=time.time();kc=None
        for c in cs:
            r=one(c,l[0],30 if c!='C03' else 5,20)
            if r: kc=c;break
        if not r:
            for c in cs:
                r=one(c,l[0],runs if c!='C03' else 40,40,30 if c!='C03' else 5)
                if r: kc=c;break
        with lock:
            out.write(json.dumps(dict(id=l[0],loc=l[1],what=l[2],by=kc,r=r,t=round(time.time()-t,1)))+'\n'); out.flush()
ts=[threading.Thread(target=w) for _ in range(nw)]
[t.start() for t in ts];[t.join() for t in ts]
