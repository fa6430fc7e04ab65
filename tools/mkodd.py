# Unusual but valid RSA keys (run once with python3-vt; output committed).
import random, os
from sympy import isprime
random.seed(77)
def prime(bits, top=2, pred=lambda p: True):
    while True:
        p=random.getrandbits(bits)|1|(1<<(bits-1))
        if top==2: p|=1<<(bits-2)
        if top==0: p&=~(1<<(bits-2))
        if isprime(p) and pred(p): return p
def der_len(n):
    if n<128: return bytes([n])
    b=n.to_bytes((n.bit_length()+7)//8,'big'); return bytes([0x80|len(b)])+b
def tlv(t,b): return bytes([t])+der_len(len(b))+b
def i(n):
    b=n.to_bytes(n.bit_length()//8+1,'big'); return tlv(2,b)
def key(pb,qb,e,order,top=2,nbits=None):
    from math import gcd
    while True:
        p=prime(pb,top,lambda p:gcd(p-1,e)==1); q=prime(qb,top,lambda p:gcd(p-1,e)==1)
        if nbits and (p*q).bit_length()!=nbits: continue
        if order=='p>q' and p<q: p,q=q,p
        if order=='p<q' and p>q: p,q=q,p
        break
    n=p*q; d=pow(e,-1,(p-1)*(q-1))
    return tlv(0x30,i(0)+b''.join(map(i,(n,e,d,p,q,d%(p-1),d%(q-1),pow(q,-1,p)))))
os.makedirs('/verif/sim/keys/odd',exist_ok=True)
L=[('2048-e3',1024,1024,3,'p>q'),('2048-e17',1024,1024,17,'p>q'),('2048-plq',1024,1024,65537,'p<q'),('2048-e3-plq',1024,1024,3,'p<q'),
('2176',1088,1088,65537,'p>q'),('2304',1152,1152,65537,'p<q'),('2560',1280,1280,65537,'p>q'),('2064',1032,1032,65537,'p>q'),('2080',1040,1040,257,'p<q'),
('5120',2560,2560,65537,'p>q'),('2050',1025,1025,65537,'p>q'),('2054',1027,1027,65537,'p<q'),
('2048-ebig',1024,1024,0xfffffffb,'p>q'),('2112-unb',1088,1024,65537,'p>q'),('2208-unb',1152,1056,65537,'p>q'),('2112-unb2',1088,1024,65537,'p<q')]
for name,pb,qb,e,o in L:
    open(f'/verif/sim/keys/odd/{name}.der','wb').write(key(pb,qb,e,o))
open('/verif/sim/keys/odd/2047.der','wb').write(key(1024,1024,65537,'p>q',0,2047))
