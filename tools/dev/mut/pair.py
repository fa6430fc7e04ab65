import sys,subprocess,json,os
from concurrent.futures import ThreadPoolExecutor
P=[l.split() for l in sys.stdin if l.strip()]
def one(a):
    mid,c,runs,cap=a[0],a[1],int(a[2]),int(a[3])
    e=dict(os.environ,GSIM_MUT=mid)
    try: p=subprocess.run(['/verif/target/debug/gsim','worker',c,'0','1','1','quick',str(runs),str(cap),'0'],capture_output=True,text=True,env=e,timeout=cap+170)
    except subprocess.TimeoutExpired: return 'timeout'
    n=None
    for l in p.stdout.splitlines():
        if l.startswith('FAIL'):
            d=json.loads(l[5:]); return f"KILL {d['run']} {d['fail']['class']}: {d['fail']['detail'][:100]}"
        if l.startswith('AGG'): n=json.loads(l[4:])['runs']
    return f'survived {n} runs'
with ThreadPoolExecutor(7) as ex:
    for a,r in zip(P,ex.map(one,P)): print(*a[:2],r,flush=True)
