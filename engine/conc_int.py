"""Oracles for the integer helpers."""
from conc import *
import math
def un_(s): return int(s,16)
PRIMES=[q for q in range(2,2000) if all(q%d for d in range(2,int(q**.5)+1))]
def g_xgcd(r):
    k=r.randrange(6)
    if k==0: a,b=r.randrange(1,40),r.randrange(1,40)
    elif k==1: b=r.choice(PRIMES)**r.randrange(1,6); a=r.randrange(1,4*b)
    else: a,b=r.randrange(1,1<<r.randrange(1,800)),r.randrange(1,1<<r.randrange(1,800))
    return [hx(a),hx(b)]
def o_xgcd(args,out):
    a,b=un_(args[0]),un_(args[1])
    if out[0]!='ok': return str(out)
    s=un_(out[1][0]); g=math.gcd(a,b)
    if not 0<=s<b: return 'result not in the range of the modulus'
    if (a*s-g)%b: return 'a*result is not gcd(a,b) modulo b'
OPS['dl.xgcd']=Op('dl.xgcd',g_xgcd,o_xgcd)
def g_sqrt(r):
    k=r.randrange(6)
    if k<3: s=r.choice([r.randrange(1<<16),65535,65534,r.randrange(300)]); n=s*s+r.choice([-1,0,1,s,2*s,2*s+1])
    elif k==3: n=2**32-1-r.randrange(1<<r.randrange(1,20))
    else: n=r.randrange(1<<r.randrange(1,33))
    return [str(min(max(n,0),2**32-1))]
OPS['dl.sqrt']=Op('dl.sqrt',g_sqrt,expect(lambda n:[str(math.isqrt(int(n)))]))
def wfac(f): return ','.join('%d^%d'%x for x in f) or '-'
def pfac(s): return [] if s=='-' else [tuple(map(int,x.split('^'))) for x in s.split(',')]
def prod(f):
    m=1
    for l,e in f: m*=l**e
    return m
def g_crt(r):
    ls=r.sample(PRIMES,r.randrange(0,12)) if r.randrange(3) else r.sample(PRIMES[:12],r.randrange(0,6)); f=[(l,r.randrange(1,5)) for l in ls]
    rs=[r.choice([0,1,l**e-1,r.randrange(l**e),r.randrange(l**e)*l%l**e,r.randrange(1<<64)]) for l,e in f]
    return [wfac(f),','.join(map(hx,rs)) or '-']
def o_crt(args,out):
    f=pfac(args[0]); rs=[un_(x) for x in args[1].split(',') if x!='-']
    if out[0]!='ok': return str(out)
    x=un_(out[1][0])
    if not 0<=x<prod(f) and f: return 'not below the modulus'
    for (l,e),q in zip(f,rs):
        if (x-q)%l**e: return 'wrong residue modulo %d^%d'%(l,e)
OPS['dl.crt']=Op('dl.crt',g_crt,o_crt)
from conc_ec import *
ODDF=[(3,6),(5,4),(7,3)]+[(q,2) for q in(11,13,17,19,29,37,41,43,71,83,89)]
A6=(6,0); TORS=None
def rfac(r):
    k=r.randrange(5)
    if k==0: f=[(2,r.choice([1,2,3,10]))]
    elif k==1: f=[r.choice(ODDF)]
    else: f=r.sample(ODDF+[(2,r.randrange(1,12))],r.randrange(2,7))
    f=[(l,r.randrange(1,e+1)) for l,e in f]
    return f
def sub_order(r,f):
    """an order dividing prod f, often the whole"""
    g=dict(f); k=r.randrange(4)
    if k==0: pass
    elif k==1: l=r.choice(f)[0]; g[l]-=1
    elif k==2: l=r.choice(f)[0]; g[l]=r.randrange(g[l]+1)
    else: g={l:r.randrange(e+1) for l,e in f}
    n=1
    for l,e in g.items(): n*=l**e
    return n
def exact(o,isid,power,fac):
    return None
def ordf(x,f,mul,isid):
    """is the order of x (killed by prod f) exactly prod f"""
    D=prod(f)
    if not isid(mul(x,D)): return None
    return all(not isid(mul(x,D//l)) for l,e in f)
def g_order(r):
    f=rfac(r); n=sub_order(r,f); p=emul(A6,rpoint(r,A6),(P+1)//n); return [w2(A6),wpt(r,p),wfac(f)]
def o_order(args,out):
    f=pfac(args[2]); p=rpt_(args[1]); w=ordf(p,f,lambda x,n:emul(A6,x,n),lambda x:x is None)
    if w is None: return None
    return None if out==('ok',['true' if w else 'false']) else 'expected %s, got %s'%(w,out)
OPS['ss.order']=Op('ss.order',g_order,o_order)
def pow2f(x,n):
    r=ONE2
    for b in bin(n)[2:] if n else '':
        r=sqr2(r)
        if b=='1': r=mul2(r,x)
    return r
def g_forder(r):
    f=rfac(r); n=sub_order(r,f); x=r2(r)
    while x==ZERO2: x=r2(r)
    x=pow2f(div2((x[0],-x[1]%P),x),(P+1)//n); return [w2(x),wfac(f)]
def o_forder(args,out):
    f=pfac(args[1]); w=ordf(g2(args[0]),f,pow2f,lambda x:x==ONE2)
    if w is None: return None
    return None if out==('ok',['true' if w else 'false']) else 'expected %s, got %s'%(w,out)
OPS['ss.forder']=Op('ss.forder',g_forder,o_forder)
def o_gen(args,out):
    if out[0]!='ok': return str(out)
    f=pfac(args[1]); pts=[rpt_(x) for x in out[1]]
    for p in pts:
        if p is None: return 'no point found'
        if not on(A6,p): return 'point not on the curve'
        if not ordf(p,f,lambda x,n:emul(A6,x,n),lambda x:x is None): return 'point not of order D'
    if len(pts)==4:
        p,q=pts[2:]
        for l,e in f:
            u,v=emul(A6,p,prod(f)//l),emul(A6,q,prod(f)//l)
            w=None
            from conc_ec import eadd
            for _ in range(l):
                if w==v: return 'points of the basis are dependent modulo %d'%l
                w=eadd(A6,w,u)
def g_gen(r):
    f=rfac(r); e=r.choice([0,0,1,2]) if all(l!=2 for l,_ in f) else 0
    return [w2(A6),wfac(f[:3]),str(e)]
OPS['ss.gen']=Op('ss.gen',g_gen,o_gen)

# discrete logarithms
from conc_ec import eadd,eneg,rhs_
def g_unit(r):
    x=r2(r)
    while x==ZERO2: x=r2(r)
    return div2((x[0],-x[1]%P),x)
def g_alpha(r,f):
    """an element of order exactly prod f"""
    while True:
        x=pow2f(g_unit(r),(P+1)//prod(f))
        if ordf(x,f,pow2f,lambda y:y==ONE2): return x
SM=[2,3,5,7,11,13,17,19,29,37,41,43,71,83,89]
BIGP=[q for q in(59,6299,6719,9181,3023,3359,4409,5039,19531,22679,41161) if (P+1)%q==0]
ALPHA={}
def g_bsgs(r):
    l=r.choice(SM+BIGP+BIGP); n=l if r.randrange(3) else r.choice([4,8,9,12,6,15,16,30,64,225,256])
    f=[]; m=n; q=2
    while m>1:
        e=0
        while m%q==0: m//=q; e+=1
        if e: f.append((q,e))
        q+=1
    a=ALPHA.get(n)
    if a is None or r.randrange(8)==0: a=ALPHA[n]=g_alpha(r,f)
    import math; s=math.isqrt(n)
    x=r.choice([0,1,n-1,n-1,n-1,n-2,s,s+1,s-1,s*(s+1)%n,s*s-1,s*s%n,r.randrange(n),r.randrange(n)])%n
    return [w2(pow2f(a,x)),w2(a),str(n)]
def o_bsgs(args,out):
    b,a=g2(args[0]),g2(args[1])
    if out[0]!='ok': return str(out)
    x=int(out[1][0]); 
    if not 0<=x<int(args[2]): return 'exponent %d not in range'%x
    if pow2f(a,x)!=b: return 'alpha^%d is not beta'%x
OPS['dl.bsgs']=Op('dl.bsgs',g_bsgs,o_bsgs)
def g_ph(r):
    k=r.randrange(5)
    f=rfac(r) if k<3 else [r.choice(ODDF+[(2,r.randrange(1,40))]) if r.randrange(2) else (2,r.choice([31,32,33,34,64,65,66,r.randrange(33,200)]))] if k==3 else [(l,1) for l in r.sample(BIGP,min(3,len(BIGP)))]
    D=prod(f); a=g_alpha(r,f); l,e=r.choice(f)
    x=r.choice([0,1,D-1,l**(e-1),l**e,D//l,r.randrange(D),r.randrange(D)])%D
    return [w2(pow2f(a,x)),w2(a),wfac(f)]
def o_ph(args,out):
    b,a=g2(args[0]),g2(args[1]); D=prod(pfac(args[2]))
    if out[0]!='ok': return str(out)
    for t in out[1]:
        x=un_(t)
        if not 0<=x<D: return 'exponent %d not in range'%x
        if pow2f(a,x)!=b: return 'alpha^%d is not beta'%x
OPS['dl.ph']=Op('dl.ph',g_ph,o_ph)
FULL=ODDF+[(2,634)]; BAS={}
def basis(r):
    """a basis of the torsion of order prod FULL on the curve A=6"""
    if not BAS:
        import random,json,os
        fn=os.path.join(os.path.dirname(os.path.abspath(__file__)),'basis.json')     # the result of the search below, stored to save time
        if os.path.exists(fn):
            BAS['b']=tuple(tuple(tuple(int(v,16) for v in c) for c in q) for q in json.load(open(fn)))
            if all(sqr2(q[1])==rhs_(A6,q[0]) for q in BAS['b']): return BAS['b']
        rr=random.Random(5); D=prod(FULL)
        def indep(p,q):
            for l,e in FULL:
                u,v=emul(A6,p,D//l),emul(A6,q,D//l)
                if u is None or v is None: return False
                w=None
                for _ in range(l):
                    if w==v: return False
                    w=eadd(A6,w,u)
            return True
        while True:
            p,q=(emul(A6,rpoint(rr,A6),(P+1)//D) for _ in range(2))
            if indep(p,q): BAS['b']=(p,q); break
        if not os.path.exists(fn): json.dump([[['%x'%v for v in c] for c in q] for q in BAS['b']],open(fn,'w'))
    return BAS['b']
def tbasis(r,f):
    D=prod(FULL)//prod(f); p,q=(emul(A6,x,D) for x in basis(r))
    t=r.randrange(1,prod(f)); return p,eadd(A6,q,emul(A6,p,t))
def g_bidlp(r):
    f=rfac(r); p,q=tbasis(r,f); D=prod(f); c=lambda:r.choice([0,1,D-1,D//f[0][0],r.randrange(D),r.randrange(D)])
    R=eadd(A6,emul(A6,p,c()),emul(A6,q,c()))
    return [w2(A6),wpt(r,R),wpt(r,p),wpt(r,q),wfac(f),str(r.randrange(2))]
def lincomb(p,a,q,b): return eadd(A6,emul(A6,p,a),emul(A6,q,b))
def o_bidlp(args,out):
    R,p,q=(rpt_(x) for x in args[1:4]); D=prod(pfac(args[4]))
    if out[0]!='ok': return str(out)
    a,b=map(un_,out[1])
    if not(0<=a<D and 0<=b<D): return 'coefficients not in range'
    if lincomb(p,a,q,b)!=R: return '[a]P+[b]Q is not R'
OPS['dl.bidlp']=Op('dl.bidlp',g_bidlp,o_bidlp)
def g_kernel(r):
    f=rfac(r); f=[x for x in f if x[0]!=2] or [r.choice(ODDF)]; p,q=tbasis(r,f); D=prod(f)
    s=r.choice([0,1,D-1,f[0][0],D//f[0][0],r.randrange(D),r.randrange(D)])%D
    # images: multiples a1, a2 of P+[s]Q with no common prime factor with the order
    while True:
        a1,a2=r.randrange(D),r.randrange(D)
        if r.randrange(2):
            for l,e in f:
                k=r.randrange(3)
                if k==0: a1=a1*l%D
                elif k==1: a2=a2*l%D
        if all(a1%l or a2%l for l,e in f): break
    g=lincomb(p,1,q,s)
    return [w2(A6)]+[wpt(r,x) for x in(emul(A6,g,a1),emul(A6,g,a2),p,q)]+[wfac(f)]
def o_kernel(args,out):
    u,v,p,q=(rpt_(x) for x in args[1:5]); f=pfac(args[5])
    if out[0]!='ok': return str(out)
    s=un_(out[1][0]); D=prod(f)
    if not 0<=s<D: return 'scalar not in range'
    # the subgroup generated by P+[s]Q must contain both images: the pairing with it is trivial; by search per prime power
    g=lincomb(p,1,q,s)
    for l,e in f:
        c=D//l**e; G=emul(A6,g,c)
        for x in(u,v):
            X=emul(A6,x,c); w=None; hit=False
            for _ in range(l**e):
                if w==X: hit=True; break
                w=eadd(A6,w,G)
            if not hit: return 'image not in the subgroup generated by P+[s]Q, at %d^%d'%(l,e)
OPS['ss.kernel']=Op('ss.kernel',g_kernel,o_kernel)
LP=634
D1F=[(3,6),(19,2),(29,2),(37,2),(83,2),(139,2),(167,2),(251,2),(419,2),(421,2),(701,2),(839,2),(1009,2),(1259,2),(3061,2),(3779,2)]
M1=sum(x<<32*i for i,x in enumerate([0x6FC3B771,0xCA5A2369,0xB11FABF6,0x232ED4F9,0x00001121]))
D2F=[(5,4),(7,3)]+[(q,2) for q in(11,13,17,41,43,71,89,127,211,281,503,631,2309,2521,2647,2729)]
def DIAG(): return prod(D1F)**2*prod(D2F)*M1
def g_diagb(r):
    f=[(2,LP)]; p,q=tbasis(r,f); k=r.randrange(4)
    al=r.choice([1,3,(1<<LP)-1,(1<<LP-1)+1,(1<<LP-1)-1,r.randrange(1<<LP)|1,r.randrange(1<<LP)|1])
    sc=DIAG()*al%(1<<LP)
    R=lincomb(p,sc,q,r.choice([0,0,r.randrange(1<<LP)]))
    return [w2(A6),wpt(r,R),wpt(r,p),wpt(r,q),'%x'%al]
def o_diagb(args,out):
    if out[0]!='ok': return str(out)
    al=int(args[4],16); L=1<<LP; be=pow(al,-1,L)
    w=[al,be] if al<=L>>1 else [L-al,L-be]
    return None if [un_(x) for x in out[1]]==w else 'expected %x,%x'%tuple(w)
OPS['fe.diagb']=Op('fe.diagb',g_diagb,o_diagb)

def o_pp(args,out):
    if out[0]!='ok': return str(out)
    o=out[1]; D1,D2,DA,DA1,DA2,M1_,M2,BO,PM=map(un_,o[:9]); f=[pfac(x) for x in o[9:14]]; L,T=int(o[14]),int(o[15]); st=list(map(int,o[16].split(',')))
    from prop_const import strategy_ok,isprime
    for n,v,fl,k in(('D1',D1,f[0],1),('D2',D2,f[1],1),('DA',DA,f[2],1),('DA1',DA1,f[3],2),('DA2',DA2,f[4],2)):
        if v!=prod(fl)**k: return n+' is not the product of its factors'
        if len(dict(fl))!=len(fl) or not all(isprime(l) and l>2 for l,_ in fl): return n+': factors are not distinct odd primes'
        if n!='DA' and (P+1)%prod(fl): return n+' does not divide p+1'
    if DA!=DA1*DA2: return 'DA is not DA1*DA2'
    if M1_**2*DA1*D1+M2**2*DA2*D2!=1<<T: return 'norm equation fails'
    if BO!=P+1 or PM!=P: return 'group order or modulus wrong'
    if L!=634 or T+2!=L: return 'power of two wrong'
    if len(st)!=T-1 or not strategy_ok(T,st): return 'strategy not well-formed'
    for n,v,w in zip(('ZERO','ONE','TWO','THREE','FOUR','MINUS_ONE','ZETA','MINUS_ZETA'),o[17:25],[(0,0),(1,0),(2,0),(3,0),(4,0),(P-1,0),(0,1),(0,P-1)]):
        if g2(v)!=w: return 'Fp2::%s is wrong'%n
    if chi2(g2(o[25]))!=-1: return 'NQR is a square'
OPS['pp.all']=Op('pp.all',lambda r:['-'],o_pp)
