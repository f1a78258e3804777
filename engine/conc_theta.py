"""Oracle for the (2^n,2^n)-isogeny between elliptic products: kernels generated by (aP, f(P)), (aQ, f(Q)) for an isogeny
f: E -> E' of odd degree d with a^2 + d = 2^n.  The quotient is again E x E', through (R,S) -> (aR + f^(S), aS - f(R)), where
f^ is the dual; the images are compared through the (unique up to sign) isomorphisms with the returned curves."""
from conc_isog import *
def vfull(A,K,l):
    """isogeny with kernel <K>, y-coordinates included"""
    xs=xs_of(A,K,l); B,f=isog1(A,K,l); c=[None]
    def g(p):
        if p is None: return None
        X=f(p[0])
        if X is None: return None
        if p[1]==ZERO2: return (X,ZERO2)
        s=inv2(p[0])
        for t in xs:
            n=sub2(mul2(p[0],t),ONE2)
            if n==ZERO2: raise ZeroDivisionError
            s=add2(s,scale2(sub2(div2(t,n),inv2(sub2(p[0],t))),2))
        Y=mul2(mul2(p[1],X),s)          # up to one constant
        if c[0] is None: c[0]=div2(sqrt2(rhs_(B,X)),Y)
        return (X,mul2(c[0],Y))
    return B,g
def fullchain(A,K,fac,pts):
    n=prod(fac)
    for l in [l for l,e in fac for _ in range(e)]:
        n//=l; B,f=vfull(A,emul(A,K,n),l); K=f(K); pts=[f(p) for p in pts]; A=B
    return A,pts
def ofac(d):
    f=[]
    for l,e in ODDF:
        k=0
        while d%l==0: d//=l; k+=1
        if k>e: return None
        if k: f.append((l,k))
    return f if d==1 and all(l<100 for l,_ in f) else None
CASES=[(n,a,ofac((1<<n)-a*a)) for n in range(3,15) for a in range(1,1<<(n+1)//2,2) if (1<<n)-a*a>2 and ofac((1<<n)-a*a)]
def strat(r,n):
    if n<=1: return []
    b=r.choice([1,n-1,n//2 or 1,r.randrange(1,n)]); return [b]+strat(r,n-b)+strat(r,b)
ST={}
def g_small(r): return g_chain_(r,True)
def g_chain_(r,small=False):
    n,a,f=r.choice([c for c in CASES if c[0]<6] if small else CASES); k=0 if small else r.randrange(3)
    w=[[],[(3,2),(5,1)],[(7,1),(3,3)]][k]; w=[(l,e) for l,e in w if all(l!=x[0] for x in f)]
    tw=[(2,n+2)]+f; p,q=tbasis(r,tw+w); A=A6
    if w: nw=prod(w); K=emul(A,p,prod(tw)); A,(p,q)=fullchain(A,K,w,[p,q]); p,q=emul(A,p,nw),emul(A,q,nw)
    N=1<<n+2; d=prod(f); K=emul(A,p,N); T=[(emul(A,x,d)) for x in(p,q)]
    # another basis of the 2-power torsion
    c=r.choice([0,1,2,3,r.randrange(N)]); T=[eadd(A,T[0],emul(A,T[1],c)),T[1]]
    if r.randrange(2): T=T[::-1]
    c=r.choice([0,1,2,3,r.randrange(N)]); T=[eadd(A,T[0],emul(A,T[1],c)),T[1]]
    pts=[any_pt(r,A,p,q,N*d) for _ in range(2*(0 if small else r.randrange(0,3)))]
    if small: # many pairs of small order, not killed by four
        while len(pts)<32:
            w=[emul(A,eadd(A,emul(A,T[0],r.randrange(N)),emul(A,T[1],r.randrange(N))),N//r.choice([1,2,4,4,8,16])) for _ in(0,1)]
            if any(emul(A,x,4) is not None for x in w): pts+=w
    elif pts and r.randrange(2)==0: # images of order four (or less) in one or both factors
        W=[any_pt(r,A,p,q,N*d) for _ in(0,1)]; i=r.randrange(3)
        if i<2: W[i]=emul(A,any_pt(r,A,p,q,N*d),d)
        else: W=[emul(A,w_,d) for w_ in W]
        pts[:2]=[eadd(A,emul(A,W[0],a),eneg(emul(A,W[1],d))),eadd(A,W[0],emul(A,W[1],a))]
    elif pts and r.randrange(2)==0: # points of small order: coordinates of their images vanish along the chain
        pts=[emul(A,any_pt(r,A,p,q,N*d),N//r.choice([1,2,4,4,8,16])*d) for _ in pts]
    elif pts:
        if r.randrange(2): pts[0]=None
        if r.randrange(3)==0: pts[1]=None
    # known finding: evaluation points killed by four can have the wrong image
    if any(emul(A,pts[i],4*d) is None and emul(A,pts[i+1],4*d) is None for i in range(0,len(pts),2)): return g_chain_(r,small)
    if any(x is not None and emul(A,x,d) is None for x in pts): return g_chain_(r,small)
    try: B,im=fullchain(A,K,f,T+pts)
    except ZeroDivisionError: return g_chain_(r,small)
    if jinv(A)==jinv(B): return g_chain_(r,small)
    tor=[wpt(r,x) for i in(0,1) for x in(emul(A,T[i],a),im[i])]
    st=','.join(map(str,strat(r,n))) if r.randrange(4) else '-'
    # images (R,S) with S = f(S'); the expected x-coordinates go along as extra arguments (ignored by the harness)
    out=[w2(A),w2(B)]+tor+[str(n),st]; exp=[]
    for i in range(0,len(pts),2):
        R_,S_=pts[i],pts[i+1]; out+=[wpt(r,R_),wpt(r,im[2+i+1])]
        Z1=eadd(A,emul(A,R_,a),emul(A,S_,d)); Z2=eadd(B,emul(B,im[2+i+1],a),eneg(im[2+i])); exp+=[wpt(r,Z1,True),wpt(r,Z2,True)]
    return out+['=']+exp
def xmaps(A2,A1):
    """(u,v) with u x + v : E_A2 -> E_A1"""
    vs=[ZERO2]; D=sub2(sqr2(A1),(4,0)); s=sqrt2(D)
    if s is not None: h=pow(2,-1,P); vs+=[scale2(sub2(s,A1),h),neg2(scale2(add2(s,A1),h))]
    for v in vs:
        n=add2(add2(scale2(sqr2(v),3),scale2(mul2(A1,v),2)),ONE2); t=sqrt2(n)
        for u in(() if t is None else (t,neg2(t))):
            if add2(scale2(v,3),A1)==mul2(u,A2): yield u,v
def o_chain_(args,out):
    if out[0]!='ok': return str(out)
    A,B=g2(args[0]),g2(args[1]); k=args.index('='); exp=[rpt_(x) for x in args[k+1:]]; C,D=g2(out[1][0]),g2(out[1][1]); im=[rpt_(x) for x in out[1][2:]]
    if len(im)!=len(exp): return 'number of images'
    jc,jd=jinv(C),jinv(D); ja,jb=jinv(A),jinv(B)
    if (jc,jd)==(ja,jb): sw=0
    elif (jc,jd)==(jb,ja): sw=1
    else: return 'the codomain is another product'
    for i in range(0,len(im),2):
        e=exp[i:i+2]; g=im[i:i+2]; 
        if sw: g=g[::-1]
        for (s,t),x,y,nm in zip(((A,D if sw else C),(B,C if sw else D)),e,g,('first','second')):
            if y is not None and sqr2(y[1])!=rhs_(t,y[0]): return 'image %d is not on the codomain'%(i//2)
            m=list(xmaps(s,t))
            if not m: return 'codomain not isomorphic'
            if (x is None)!=(y is None): return 'image %d, %s component: infinity'%(i//2,nm)
            if x is not None and all(add2(mul2(u,x[0]),v)!=y[0] for u,v in m): return 'image %d, %s component is another point'%(i//2,nm)
OPS['th.chain']=Op('th.chain',g_chain_,o_chain_)
OPS['th.small']=Op('th.small',g_small,o_chain_)
# ---- theta points
def H_(v): a,b,c,d=v; s,t,x,y=add2(a,b),sub2(a,b),add2(c,d),sub2(c,d); return [add2(s,x),add2(t,y),sub2(s,x),sub2(t,y)]
def S_(v): return H_([sqr2(x) for x in v])
def g_pt(r):
    a=[r2(r) for _ in range(4)]
    if ZERO2 in a or ZERO2 in S_(a): return g_pt(r)
    return [w2(x) for x in a]+[w2(r.choice([ZERO2,r2(r),r2(r),r2(r)])) for _ in range(4)]+[str(r.randrange(4))]
def o_pt(args,out):
    if out[0]!='ok': return str(out)
    a=[g2(x) for x in args[:4]]; x=[g2(v) for v in args[4:8]]; n=int(args[8]); A=S_(a); o=[g2(v) for v in out[1]]
    if o[:4]!=H_(x): return 'hadamard'
    if o[4:8]!=S_(x): return 'squared theta'
    if o[8:14]!=[div2(a[0],a[i]) for i in(1,2,3)]+[div2(A[0],A[i]) for i in(1,2,3)]: return 'precomputation'
    D=lambda x:[div2(u,v) for u,v in zip(H_([div2(sqr2(u),v) for u,v in zip(S_(x),A)]),a)]
    def same(u,w): return all(mul2(u[i],w[j])==mul2(u[j],w[i]) for i in range(4) for j in range(i)) and (w==[ZERO2]*4)==(u==[ZERO2]*4)
    if not same(o[14:18],D(x)): return 'double'
    for _ in range(n): x=D(x)
    if not same(o[18:22],x): return 'repeated doubling'
OPS['th.point']=Op('th.point',g_pt,o_pt)
