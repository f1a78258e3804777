"""Constants of the specification.  They are written here independently of the code: the
verified functions are compared against these numbers, never against the code's own."""
F_ODD={3:6,5:4,7:3,11:2,13:2,17:2,19:2,29:2,37:2,41:2,43:2,59:1,71:3,83:2,89:2,127:2,139:2,167:2,211:2,
 251:2,281:2,419:2,421:2,503:2,631:2,701:2,839:2,1009:2,1259:2,2309:2,2521:2,2647:2,2729:2,3023:1,3061:2,
 3359:1,3779:2,4409:1,5039:1,6299:1,6719:1,9181:1,19531:1,22679:1,41161:1}
E2=634
ODD=1
for _q,_e in F_ODD.items(): ODD*=_q**_e
P=(ODD<<E2)-1
NL=21
R=1<<(64*NL)
RINV=pow(R,-1,P)
ENC=(P.bit_length()+7)//8
FP='fields::FpFESTA::Fp::'
FP2='fields::FpFESTAExt::Fp2::'
FPT='fields::FpFESTA::Fp'
FP2T='fields::FpFESTAExt::Fp2'
CUR='eccore::ecFESTA::'
def mont(x): return x*R%P
def unmont(x): return x*RINV%P
# ---- F_p^2 arithmetic on pairs (oracle)
def f2(a,b=0): return (a%P,b%P)
def add2(x,y): return ((x[0]+y[0])%P,(x[1]+y[1])%P)
def sub2(x,y): return ((x[0]-y[0])%P,(x[1]-y[1])%P)
def neg2(x): return (-x[0]%P,-x[1]%P)
def mul2(x,y): return ((x[0]*y[0]-x[1]*y[1])%P,(x[0]*y[1]+x[1]*y[0])%P)
def sqr2(x): return mul2(x,x)
def inv2(x):
    n=(x[0]*x[0]+x[1]*x[1])%P
    if n==0: return (0,0)
    i=pow(n,-1,P); return (x[0]*i%P,-x[1]*i%P)
def div2(x,y): return mul2(x,inv2(y))
def pow2(x,e):
    r=(1,0)
    while e:
        if e&1: r=mul2(r,x)
        x=mul2(x,x); e>>=1
    return r
def scale2(x,k): return (x[0]*k%P,x[1]*k%P)
def chi(x):
    """Jacobi symbol (x/p)"""
    a=x%P; n=P; t=1
    if a==0: return 0
    while a:
        z=(a&-a).bit_length()-1; a>>=z
        if z&1 and n&7 in(3,5): t=-t
        if a&3==3 and n&3==3: t=-t
        a,n=n%a,a
    return t
def chi2(x): return chi(x[0]*x[0]+x[1]*x[1])
def sqrt1(x): return pow(x,(P+1)//4,P)
def sqrt2(x):
    """a square root or None"""
    a,b=x
    if b==0:
        if chi(a)>=0: return (sqrt1(a),0)
        return (0,sqrt1(-a))
    n=(a*a+b*b)%P
    if chi(n)<0: return None
    s=sqrt1(n)
    h=pow(2,-1,P)
    t=(a+s)*h%P
    if chi(t)<0: t=(a-s)*h%P
    if chi(t)<0: return None
    y=sqrt1(t)
    return (y,b*pow(2*y,-1,P)%P)
ZERO2=(0,0); ONE2=(1,0)
