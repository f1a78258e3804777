"""The binary GCD with approximated operands (T. Pornin, eprint 2020/972), on integers: the reference that tells the
verifier which machine word plays which part.  It is used to choose invariants, never to decide them."""
from spec import P
M64=(1<<64)-1
def approx(a,b):
    n=max(a.bit_length(),b.bit_length())
    if n<=64: return a,b
    return tuple((x&0x7FFFFFFF)+((x>>(n-33))<<31) for x in(a,b))
def step(s):
    xa,xb,f0,g0,f1,g1=s
    if xa&1:
        if xa<xb: xa,xb,f0,g0,f1,g1=xb,xa,f1,g1,f0,g0
        xa-=xb; f0-=f1; g0-=g1
    return (xa>>1,xb,f0,g0,2*f1,2*g1)
def outer(a,b,k=31):
    s=approx(a,b)+(1,0,0,1)
    for _ in range(k): s=step(s)
    r=[]
    for f,g in((s[2],s[3]),(s[4],s[5])):
        t=f*a+g*b
        assert t%(1<<k)==0
        r.append((abs(t)>>k,t<0))
    return s,r
ENC={'xa':lambda s:s[0],'xb':lambda s:s[1],'fg0':lambda s:(s[2]+(s[3]<<32))&M64,'fg1':lambda s:(s[4]+(s[5]<<32))&M64,
 'f0':lambda s:s[2]&M64,'g0':lambda s:s[3]&M64,'f1':lambda s:s[4]&M64,'g1':lambda s:s[5]&M64}
