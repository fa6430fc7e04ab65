# Special RSA prime candidates for C03 (run once with python3-vt; output committed).
import random
from math import gcd, isqrt
from sympy import isprime, primerange
random.seed(20240607)
small=1
for x in primerange(3,745): small*=x
def one(bits, out):
    lo=3<<(bits-2); hi=(1<<bits)-1
    for _ in range(2):
        while True:
            p=random.randrange(lo,hi)//65537*65537*1
            p=(p//(2*65537))*(2*65537)+1
            if lo<=p<=hi and isprime(p): break
        out.append((bits,'phi',p))
    for _ in range(4):
        while True:
            p=random.randrange(lo,hi)|1
            if isprime(p): break
        out.append((bits,'prime',p))
    for r in (32,32,128):
        while True:
            a=isqrt(random.randrange(lo,hi)//r)
            a|=3
            if a%4!=3: continue
            b=r*(a-1)+1
            n=a*b
            if not(lo<=n<=hi) or gcd(n,small)!=1: continue
            if isprime(a) and isprime(b): break
        out.append((bits,'pseudo',n))
    # product of two ordinary primes, no small factors
    while True:
        a=random.randrange(1<<(bits//2-1),1<<(bits//2))|1
        if isprime(a): break
    while True:
        b=random.randrange(lo//a,hi//a)|1
        if isprime(b) and lo<=a*b<=hi: break
    out.append((bits,'composite',a*b))
    # square of a prime
    while True:
        a=isqrt(random.randrange(lo,hi))|1
        if isprime(a) and lo<=a*a<=hi: break
    out.append((bits,'composite',a*a))
import sys
def one_pseudo(bits, r):
    lo=3<<(bits-2); hi=(1<<bits)-1
    while True:
        a=isqrt(random.randrange(lo,hi)//r)|3
        b=r*(a-1)+1
        n=a*b
        if lo<=n<=hi and gcd(n,small)==1 and pow(2,a-1,a)==1 and isprime(a) and isprime(b): return n
def one_prime(bits, k=1):
    lo=3<<(bits-2); hi=(1<<bits)-1
    while True:
        p=random.randrange(lo,hi)|1
        if k>1: p=p//(2*k)*(2*k)+1
        if lo<=p<=hi and gcd(p,small)==1 and pow(2,p-1,p)==1 and isprime(p): return p
def strong(n,b):
    m=n-1;a=0
    while m%2==0:m//=2;a+=1
    z=pow(b,m,n)
    if z in(1,n-1):return True
    for _ in range(a-1):
        z=z*z%n
        if z==n-1:return True
    return False
def entry(job):
    # (each entry of the larger sizes comes from a seed of its own, so that adding one changes no other line)
    bits,kind,i=job
    random.seed(bits*100+i)
    if kind=='phi': return bits,kind,one_prime(bits,65537)
    if kind=='prime': return bits,kind,one_prime(bits)
    if kind=='pseudo': return bits,kind,one_pseudo(bits,(32,32,128)[i%3])
    lo=3<<(bits-2); hi=(1<<bits)-1
    while True:
        a=random.randrange(1<<(bits//2-1),1<<(bits//2))|1
        if gcd(a,small)==1 and isprime(a): break
    while True:
        b=random.randrange(lo//a,hi//a)|1
        if gcd(b,small)==1 and isprime(b) and lo<=a*b<=hi: break
    return bits,kind,a*b
if __name__=='__main__':
    from multiprocessing import Pool
    out=[]
    for bits in (1024,1536,2048): one(bits,out)
    big=[(bits,'pseudo',i) for bits in (4096,3072) for i in range(3)]
    for bits in (3072,4096):
        big+=[(bits,k,i) for k,i in (('phi',10),('prime',20),('prime',21),('prime',22),('composite',30))]
    with Pool() as pool: l=pool.map(entry,big,chunksize=1)
    # no value here may be a base to which one of the composites passes: values are read as bases too
    def fooled(b,n):
        return any(1<v<n-1 and strong(n,v) for b2,_,w in l if b2==b for v in (w,w&~(3<<(b-2)),w&~1,w&~(1<<(b-1))&~1))
    l=[x for x in l if x[1] not in('pseudo','composite') or not fooled(x[0],x[2])]
    out+=sorted(l,key=lambda x:(x[0],{'phi':0,'prime':1,'pseudo':2,'composite':3}[x[1]]))
    with open(sys.argv[1] if len(sys.argv)>1 else '/verif/sim/keys/special.txt','w') as f:
        for b,k,v in out: f.write(f"{b} {k} {v:x}\n")
