import subprocess,json,re,os,sys,shutil
R='/tmp/w/mrepo'
if not os.path.exists(R): subprocess.run(['git','clone','-q','/repo',R],check=True)
subprocess.run(['git','-C',R,'fetch','-q','/repo','HEAD'],check=True)
FILES=subprocess.run(r"""cd /tmp/w/mrepo && git checkout -q -f FETCH_HEAD && find graviola/src rustls-graviola/src -name '*.rs' | grep -v -E 'aarch64|precomp|test|/low/x86_64/(bignum|curve|edwards|p256|p384|mlkem|sha3_keccak|sm2)|macros|asn1/' | sort""",shell=True,capture_output=True,text=True).stdout.split()
FILES+=['graviola/src/low/x86_64/mlkem.rs'] if os.path.exists(R+'/graviola/src/low/x86_64/mlkem.rs') else []
FILES+=['graviola/src/high/asn1/pkix.rs'] if os.path.exists(R+'/graviola/src/high/asn1/pkix.rs') else []
FILES=sorted(set(FILES))
skip=set()
sk='/tmp/w/mut/skip.txt'
if os.path.exists(sk): skip=set(open(sk).read().split())
for it in range(60):
    subprocess.run(['git','-C',R,'checkout','-q','--','.'],check=True)
    open(sk,'w').write(' '.join(sorted(skip,key=int)))
    subprocess.run(['/tmp/w/mut/target/debug/mut',R,sk,'/tmp/w/mut/list.txt']+FILES,check=True)
    p=R+'/graviola/src/lib.rs'; s=open(p).read()
    s+='''
#[doc(hidden)]
pub static GSIM_MUT: core::sync::atomic::AtomicU32 = core::sync::atomic::AtomicU32::new(0);
#[doc(hidden)]
#[inline(always)]
pub fn gm(id: u32) -> bool { GSIM_MUT.load(core::sync::atomic::Ordering::Relaxed) == id }
unsafe extern "C" { fn getenv(n: *const u8) -> *const u8; fn atoi(n: *const u8) -> i32; }
extern "C" fn gm_init() { unsafe { let p = getenv(c"GSIM_MUT".as_ptr() as *const u8); if !p.is_null() { GSIM_MUT.store(atoi(p) as u32, core::sync::atomic::Ordering::Relaxed); } } }
#[used]
#[unsafe(link_section = ".init_array")]
static GM_INIT: extern "C" fn() = gm_init;
'''
    open(p,'w').write('#![allow(arithmetic_overflow, unconditional_panic, overflowing_literals, warnings)]\n'+s)
    q=R+'/rustls-graviola/src/lib.rs'; t=open(q).read(); open(q,'w').write('#![allow(arithmetic_overflow, unconditional_panic, warnings)]\n'+t)
    r=subprocess.run('. /opt/vp/env.sh; cd '+R+'; export CARGO_TARGET_DIR=/tmp/w/mrepo-target; RUSTFLAGS="" cargo check --offline -p graviola -p rustls-graviola --message-format=json 2>/tmp/w/mut/err.txt',shell=True,capture_output=True,text=True,executable='/bin/bash')
    n=0
    for l in r.stdout.splitlines():
        d=json.loads(l)
        if d.get('reason')!='compiler-message' or d['message']['level']!='error': continue
        for sp in d['message']['spans']:
            if not sp['is_primary']: continue
            f=sp['file_name']; f=f if f.startswith('/') else R+'/'+f
            full=open(f,'rb').read()
            b=full[:sp['byte_start']+8]
            ids=re.findall(rb'gm\((\d+)\)',b)[-1:]
            ins=re.findall(rb'gm\((\d+)\)',full[sp['byte_start']:sp['byte_end']])
            if len(ins)<60 and ins: ids=ins
            if 'const' in d['message']['message'] or 'attempt to use a non-constant' in d['message']['message']:
                eol=full.find(b'\n',sp['byte_end']); bol=full.rfind(b'\n',0,sp['byte_start'])
                ids=ids+re.findall(rb'gm\((\d+)\)',full[bol:eol])
            if ids: skip.update(x.decode() for x in ids); n+=1
            else: print('no id',d['message']['message'],sp['file_name'],sp['line_start'])
    print(it,'errors',n,'skip',len(skip),'rc',r.returncode,flush=True)
    if r.returncode==0: break
    if n==0: print(open('/tmp/w/mut/err.txt').read()[-2000:]); break
