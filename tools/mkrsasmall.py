#!/usr/bin/env python3-vt
# writes harness/kv/src/rsasmall.rs: fixed RSA test keys of ordinary and odd sizes
import sympy, random
R=random.Random(20261119)
def prime(b,e):
    while True:
        p=sympy.nextprime(R.getrandbits(b)|(3<<(b-2)))
        if p.bit_length()==b and (p-1)%e and sympy.gcd(p-1,e)==1: return p
def key(bits,e):
    while True:
        a=(bits+1)//2; b=bits-a
        p=prime(a,e); q=prime(b,e)
        if p<q: p,q=q,p
        n=p*q
        if n.bit_length()==bits and p!=q: break
    d=pow(e,-1,int(sympy.lcm(p-1,q-1)))
    return dict(n=n,e=e,d=int(d),p=p,q=q,dp=int(d%(p-1)),dq=int(d%(q-1)),qi=pow(q,-1,p))
hx=lambda x:(lambda s:s if len(s)%2==0 else "0"+s)("%x"%x)
out="// generated by tools/mkrsa.py\nuse crate::rsakeys::K;\npub static KEYS: &[K] = &[\n"
for bits,e in [(512,65537),(768,65537),(1016,65537),(1020,17)]:
    k=key(bits,e)
    out+="    K { bits: %d, "%bits+", ".join('%s: "%s"'%(a,hx(k[a])) for a in ["n","e","d","p","q","dp","dq","qi"])+" },\n"
out+="];\n"
open("/verif/harness/kv/src/rsasmall.rs","w").write(out)
