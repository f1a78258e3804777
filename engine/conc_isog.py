"""Oracles for the isogenies: Renes' normalised formulas (sum and product over the kernel), affine."""
from conc_int import *
from conc_ec import eadd,eneg,emul,w2,g2,wpt,rpt_,rhs_
from conc_pair import weil
from conc_iso import jinv
def xs_of(A,K,l):
    o=[]; t=K
    for _ in range((l-1)//2): o.append(t[0]); t=eadd(A,t,K)
    return o
def isog1(A,K,l):
    """(codomain constant, x-map) of the isogeny with kernel <K>"""
    xs=xs_of(A,K,l); pi=ONE2; sg=ZERO2
    for x in xs: pi=mul2(pi,sqr2(x)); sg=add2(sg,scale2(sub2(x,inv2(x)),2))
    def f(x):
        if x is None: return None
        n=d=ONE2
        for t in xs: n=mul2(n,sub2(mul2(x,t),ONE2)); d=mul2(d,sub2(x,t))
        return None if d==ZERO2 else mul2(x,sqr2(div2(n,d)))
    return mul2(pi,sub2(A,scale2(sg,3))),f
def lift(A,x):
    return None if x is None else (x,sqrt2(rhs_(A,x)))
def chain(A,K,fac,pts):
    """apply all prime-degree steps one after the other; points up to sign"""
    K=K; n=prod(fac); steps=[l for l,e in fac for _ in range(e)]; js=[]
    for l in steps:
        n//=l; B,f=isog1(A,emul(A,K,n),l)
        K=lift(B,f(K and K[0])); pts=[lift(B,f(p and p[0])) for p in pts]; A=B; js.append(A)
    return A,K,pts,js
SMALL=[x for x in ODDF if x[0]<200]
def ifac(r,n=2):
    f=[(l,r.randrange(1,e+1)) for l,e in r.sample(SMALL,r.randrange(1,n+1))]
    while sum(l*e for l,e in f)>400: f=[(l,max(1,e-1)) if e>1 else (l,e) for l,e in f][:max(1,len(f)-1)]
    return f
def start(r,f):
    """a curve and two independent points of order prod(f)"""
    p,q=tbasis(r,f); A=A6
    if r.randrange(2):
        l=r.choice([x[0] for x in SMALL if x[0]<30 and all(x[0]!=y[0] for y in f)]); k,_=tbasis(r,[(l,1)]); A,K,(p,q),_=chain(A6,k,[(l,1)],[p,q])
    return A,p,q
def any_pt(r,A,p,q,n): return eadd(A,emul(A,p,r.randrange(n)),emul(A,q,r.randrange(n)))
def g_one(r):
    l=r.choice([x[0] for x in ODDF if x[0]<(200 if r.randrange(4) else 1100)]); o=r.choice([(5,1),(7,1),(11,1)]); o=o if o[0]!=l else (3,1)
    A,p,q=start(r,[(l,1),o]); n=l*o[0]; K=emul(A,any_pt(r,A,p,q,n),o[0])
    if K is None: K=emul(A,p,o[0])
    return [w2(A),wpt(r,K),str(l)]+[wpt(r,x) for x in(None,K,any_pt(r,A,p,q,n),p)]
def cmp_img(A,ws,outs):
    for i,(w,o) in enumerate(zip(ws,outs)):
        p=rpt_(o)
        if (p is None)!=(w is None): return 'image %d: infinity'%i
        if p is not None and sqr2(p[1])!=rhs_(A,p[0]): return 'image %d is not on the codomain'%i
        if p is not None and p[0]!=w[0]: return 'image %d is another point'%i
def o_one(args,out):
    if out[0]!='ok': return str(out)
    A,K,l=g2(args[0]),rpt_(args[1]),int(args[2]); B,f=isog1(A,K,l)
    if g2(out[1][0])!=B: return 'not the codomain'
    return cmp_img(B,[lift(B,f(p and p[0])) for p in map(rpt_,args[3:])],out[1][1:])
OPS['ig.one']=Op('ig.one',g_one,o_one)
def g_chain(r):
    f=ifac(r,3); A,p,q=start(r,f); n=prod(f); K=p
    return [w2(A),wpt(r,K),wfac(f)]+[wpt(r,x) for x in(q,any_pt(r,A,p,q,n),None,emul(A,K,r.randrange(n)))]
def cmp_chain(w,B,outs):
    A,K,pts,js=w
    if A==B: return cmp_img(A,pts,outs)
    if jinv(A)!=jinv(B): return 'not the codomain'
def o_chain(args,out):
    if out[0]!='ok': return str(out)
    A,K,f=g2(args[0]),rpt_(args[1]),pfac(args[2]); w=chain(A,K,f,[rpt_(x) for x in args[3:]])
    if int(out[1][1])!=sum(e for l,e in f): return 'number of isogenies'
    if any(x!=out[1][0] for x in out[1][2::2]): return 'evaluation reports another codomain'
    return cmp_chain(w,g2(out[1][0]),out[1][3::2])
OPS['ig.chain']=Op('ig.chain',g_chain,o_chain)
def g_basis(r):
    f=ifac(r,2); k=r.randrange(3)
    t=[(2,r.randrange(2,12))] if k==0 else [r.choice([x for x in SMALL if all(x[0]!=y[0] for y in f)])]
    t=[(l,1 if l>2 else e) for l,e in t]; A,p,q=start(r,f+t); n=prod(f); N=prod(t)
    return [w2(A)]+[wpt(r,emul(A,x,n)) for x in(p,q)]+[wpt(r,emul(A,p,N)),wfac(f),'%x'%N,'%x'%n]
def o_basis(args,out):
    if out[0]!='ok': return str(out)
    A,p,q,K=g2(args[0]),rpt_(args[1]),rpt_(args[2]),rpt_(args[3]); f=pfac(args[4]); N,n=int(args[5],16),int(args[6],16)
    e=cmp_chain(chain(A,K,f,[p,q]),g2(out[1][0]),out[1][1:])
    if e: return e
    if weil(g2(out[1][0]),rpt_(out[1][1]),rpt_(out[1][2]),N)!=pow2(weil(A,p,q,N),n): return 'pairing of the images is not the power of the pairing'
OPS['ig.basis']=Op('ig.basis',g_basis,o_basis)
def g_scalar(r):
    f=ifac(r,2); A,p,q=start(r,f); n=prod(f); m=r.choice([0,1,n-1,n,r.randrange(n),r.randrange(n)])
    return [w2(A),wfac(f),'%x'%m]+([wpt(r,p),wpt(r,q)] if r.randrange(4) else [])
def o_scalar(args,out):
    if out[0]!='ok': return str(out)
    A,f,m=g2(args[0]),pfac(args[1]),int(args[2],16); p,q=(rpt_(x) for x in out[1][3:5]); n=prod(f)   # the basis (given or generated)
    w=chain(A,eadd(A,p,emul(A,q,m)),f,[])
    if jinv(w[0])!=jinv(g2(out[1][0])): return 'not the codomain'
    if out[1][0]!=out[1][1]: return 'codomain is not that of the last isogeny'
    if int(out[1][2])!=sum(e for l,e in f): return 'number of isogenies'
OPS['ig.scalar']=Op('ig.scalar',g_scalar,o_scalar)
def g_rand(r): return [w2(A6),wfac(ifac(r,2)),str(r.randrange(0,3))]
def o_rand(args,out):
    if out[0]!='ok': return str(out)
    f=pfac(args[1]); s=int(args[2]); cs=out[1][1:] if out[1][1:]!=[''] else []
    if len(cs)!=s*sum(e for l,e in f): return 'number of isogenies'
    if out[1][0]!=(cs[-1] if cs else args[0]): return 'codomain'
OPS['ig.rand']=Op('ig.rand',g_rand,o_rand)
