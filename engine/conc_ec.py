"""Oracles and generators for elliptic-curve operations: affine chord-and-tangent law on pairs over F_p^2."""
from spec import *
from conc import OPS,Op,h2,un2,hx,un,el2,raw,expect,EL2
M2=lambda x:scale2(x,R)          # canonical -> raw
U2=lambda x:scale2(x,RINV)
A2m_=mul2
def w2(x): return h2(M2(x))
def g2(s): return U2(un2(s))
def rhs_(A,x): return add2(mul2(add2(sqr2(x),add2(mul2(A,x),ONE2)),x),ZERO2)
def r2(r):
    k=r.randrange(10)
    if k==0: return (r.randrange(5),0)
    if k==1: return (r.randrange(P),0)
    if k==2: return (0,r.randrange(P))
    return (r.randrange(P),r.randrange(P))
def rA(r):
    while 1:
        A=r.choice([(6,0),(0,0),r2(r),r2(r)])
        if sub2(sqr2(A),(4,0))!=ZERO2: return A
def rpoint(r,A):
    while 1:
        x=r2(r); y=sqrt2(rhs_(A,x))
        if y is not None: return (x,y if r.randrange(2) else neg2(y))
def two_tors(r,A):
    if r.randrange(2): return (ZERO2,ZERO2)
    d=sqrt2(sub2(sqr2(A),(4,0)))
    if d is None: return (ZERO2,ZERO2)
    return (scale2(sub2(d,A) if r.randrange(2) else neg2(add2(d,A)),pow(2,-1,P)),ZERO2)
def apoint(r,A):
    k=r.randrange(10)
    if k==0: return None
    if k==1: return two_tors(r,A)
    if k==2:
        y=sqrt2(rhs_(A,ONE2))     # order four
        return (ONE2,y) if y is not None else rpoint(r,A)
    return rpoint(r,A)
def eadd(A,p,q):
    if p is None: return q
    if q is None: return p
    if p[0]==q[0]:
        if p[1]!=q[1] or p[1]==ZERO2: return None
        x=p[0]; l=div2(add2(add2(scale2(sqr2(x),3),scale2(mul2(A,x),2)),ONE2),scale2(p[1],2))
    else: l=div2(sub2(q[1],p[1]),sub2(q[0],p[0]))
    x3=sub2(sub2(sqr2(l),A),add2(p[0],q[0]))
    return (x3,sub2(mul2(l,sub2(p[0],x3)),p[1]))
def eneg(p): return None if p is None else (p[0],neg2(p[1]))
def emul(A,p,n):
    if n<0: return emul(A,eneg(p),-n)
    r=None
    for b in bin(n)[2:]:
        r=eadd(A,r,r)
        if b=='1': r=eadd(A,r,p)
    return r
def wpt(r,p,norm=False):
    """random projective representation"""
    if p is None:
        x,y=(ZERO2,ONE2) if r.randrange(2) else (r2(r),r2(r))
        if r.randrange(5)==0: x=y=ZERO2
        return ';'.join(w2(t) for t in(x,y,ZERO2))
    z=ONE2 if norm or r.randrange(3)==0 else r2(r)
    if z==ZERO2: z=ONE2
    return ';'.join(w2(t) for t in(mul2(p[0],z),mul2(p[1],z),z))
def rpt_(s):
    """affine point of a representation"""
    X,Y,Z=[g2(t) for t in s.split(';')]
    if Z==ZERO2: return None
    i=inv2(Z); return (mul2(X,i),mul2(Y,i))
def show(p): return 'infinity' if p is None else '(%x+%xi, %x+%xi)'%(p[0]+p[1])
def o_pts(f):
    """all returned points must represent f(args)"""
    def o(args,out):
        if out[0]!='ok': return 'no result: %s %s'%(out[0],' '.join(out[1])[:100])
        w=f(*args); w=w if isinstance(w,list) else [w]*len(out[1])
        if len(w)!=len(out[1]): return 'wrong number of results'
        for i,(s,e) in enumerate(zip(out[1],w)):
            g=rpt_(s)
            if g!=e: return 'result %d: expected %s got %s'%(i,show(e)[:200],show(g)[:200])
        return None
    return o
def g_pair(r):
    A=rA(r); p=apoint(r,A); k=r.randrange(8)
    q=p if k==0 else eneg(p) if k==1 else eadd(A,p,two_tors(r,A)) if k==2 else apoint(r,A)
    return [w2(A),wpt(r,p),wpt(r,q)]
def g_one(r): A=rA(r); return [w2(A),wpt(r,apoint(r,A))]
pp=rpt_
OPS['ec.add']=Op('ec.add',g_pair,o_pts(lambda A,p,q:eadd(g2(A),pp(p),pp(q))))
OPS['ec.sub']=Op('ec.sub',g_pair,o_pts(lambda A,p,q:eadd(g2(A),pp(p),eneg(pp(q)))))
OPS['ec.double']=Op('ec.double',g_one,o_pts(lambda A,p:eadd(g2(A),pp(p),pp(p))))
OPS['ec.double_iter']=Op('ec.double_iter',lambda r:g_one(r)+[str(r.choice([0,1,2,3,4,5,8,r.randrange(40)]))],o_pts(lambda A,p,n:emul(g2(A),pp(p),1<<int(n))))
OPS['ec.neg']=Op('ec.neg',lambda r:[g_one(r)[1]],o_pts(lambda p:[eneg(pp(p))]*4+[pp(p)]))
OPS['ec.select']=Op('ec.select',lambda r:g_pair(r)[1:]+[str(r.randrange(2))],o_pts(lambda p,q,c:pp(q) if c=='1' else pp(p)))
def g_x(r): A=rA(r); p=apoint(r,A) or rpoint(r,A); s=wpt(r,p).split(';'); return [w2(A),s[0],s[2]]
def o_xdbl(args,out):
    if out[0]!='ok': return str(out)
    A=g2(args[0]); X,Z=g2(args[1]),g2(args[2]); x=div2(X,Z)
    y2=rhs_(A,x)
    X3,Z3=g2(out[1][0]),g2(out[1][1])
    if y2==ZERO2: return None if Z3==ZERO2 else 'doubling of a point of order two is not infinity'
    w=div2(sqr2(sub2(sqr2(x),ONE2)),scale2(y2,4))
    return None if Z3!=ZERO2 and div2(X3,Z3)==w else 'wrong x'
OPS['ec.xdbl']=Op('ec.xdbl',g_x,o_xdbl)
def g_eq(r):
    A=rA(r); p=apoint(r,A); k=r.randrange(5)
    q=p if k<2 else eneg(p) if k==2 else apoint(r,A)
    return [wpt(r,p),wpt(r,q)]
OPS['ec.equals']=Op('ec.equals',g_eq,expect(lambda p,q:['ffffffff' if pp(p)==pp(q) else '0','ffffffff' if pp(p) is None else '0']))
def on(A,p): return p is None or sqr2(p[1])==rhs_(A,p[0])
def near_pt(r,A):
    p=apoint(r,A); k=r.randrange(6)
    if p is None or k<3: return p
    if k==3: return (p[0],r2(r))
    if k==4: return (p[0],scale2(p[1],2))
    return (r2(r),p[1])
def g_on(r): A=rA(r); return [w2(A),wpt(r,near_pt(r,A))]
OPS['ec.on_curve']=Op('ec.on_curve',g_on,expect(lambda A,p:['true' if on(g2(A),pp(p)) else 'false']))
def o_set(args,out):
    if out[0]!='ok': return str(out)
    A=g2(args[0]); c=[g2(x) for x in args[1:]]
    if len(c)==2: p=(c[0],c[1])
    else: p=None if c[2]==ZERO2 else (div2(c[0],c[2]),div2(c[1],c[2]))
    ok=on(A,p)
    if out[1][0]!=('ffffffff' if ok else '0'): return 'flag %s, on curve: %s'%(out[1][0],ok)
    if rpt_(out[1][1])!=(p if ok else None): return 'wrong point'
    if (out[1][2]=='none')==ok: return 'Option does not match'
    if ok and rpt_(out[1][2])!=p: return 'wrong point'
def g_sxy(r):
    A=rA(r); p=None
    while p is None: p=near_pt(r,A)
    return [w2(A),w2(p[0]),w2(p[1])]
OPS['ec.set_xy']=Op('ec.set_xy',g_sxy,o_set)
OPS['ec.set_xyz']=Op('ec.set_xyz',lambda r:(lambda A:[w2(A)]+wpt(r,near_pt(r,A)).split(';'))(rA(r)),o_set)
def o_toxy(p):
    a=pp(p); X,Y,Z=p.split(';')
    if a is None: return ['0,0','0,0','none',X,Z]
    return [w2(a[0]),w2(a[1]),w2(a[0])+';'+w2(a[1]),X,Z]
OPS['ec.to_xy']=Op('ec.to_xy',lambda r:[g_one(r)[1]],expect(o_toxy))
def g_comp(r):
    A=rA(r)
    if r.randrange(3)==0: X,Z=r2(r),r2(r); 
    else: s=[g2(t) for t in wpt(r,apoint(r,A)).split(';')]; X,Z=s[0],s[2]
    return [w2(A),w2(X),w2(Z)]
def o_comp(args,out):
    if out[0]!='ok': return str(out)
    A,X,Z=[g2(t) for t in args]; p=rpt_(out[1][0]); f=out[1][1]
    if Z==ZERO2: return None if p is None else 'infinity expected'
    x=div2(X,Z); y2=rhs_(A,x)
    if chi2(y2)<0: return None if f=='0' and p is None else 'completed a point that does not exist'
    if f!='ffffffff': return 'failed although y exists'
    if p is None or p[0]!=x or sqr2(p[1])!=y2: return 'wrong point '+show(p)[:100]
OPS['ec.complete']=Op('ec.complete',g_comp,o_comp)
def o_new(args,out):
    A=g2(args[0]); sing=sub2(sqr2(A),(4,0))==ZERO2
    if sing: return None if out[0]=='panic' else 'singular curve accepted'
    return None if out==('ok',[args[0]]) else 'expected the same constant, got %s'%(out,)
OPS['ec.curve_new']=Op('ec.curve_new',lambda r:[w2(r.choice([(2,0),(P-2,0),r2(r)]))],o_new)
def g_prod(r):
    A,B=rA(r),rA(r); return [w2(A),w2(B)]+[wpt(r,apoint(r,x)) for x in(A,B,A,B)]
OPS['ec.product']=Op('ec.product',g_prod,o_pts(lambda A,B,p,q,s,t:[eadd(g2(A),pp(p),pp(s)),eadd(g2(B),pp(q),pp(t)),eadd(g2(A),pp(p),pp(p)),eadd(g2(B),pp(q),pp(q)),emul(g2(A),pp(p),8),emul(g2(B),pp(q),8)]))
# ---- scalar multiplication
def g_scalar(r,A,p):
    k=r.randrange(8)
    if k<3: return r.randrange(0,40)
    if k==3: return r.choice([2**32-1,2**63,2**64-1])
    if k==4: return r.randrange(1<<r.randrange(1,128))
    if k==5: return (1<<r.randrange(1,60))-1
    if k==6 and r.randrange(8)==0: return P+1+r.choice([-2,-1,0,1])
    return r.randrange(1<<r.randrange(1,40))
def sspt(r):
    """curve A=6 (supersingular, order (p+1)^2) points of small order, or anything"""
    if r.randrange(3)==0:
        A=(6,0); l=r.choice([3,5,7,4,8,9,16]); p=emul(A,rpoint(r,A),(P+1)//l); return A,p
    A=rA(r); return A,apoint(r,A)
def g_mul(r):
    A,p=sspt(r); n=g_scalar(r,A,p); bl=n.bit_length(); k=r.randrange(5)
    if k==4:
        if r.randrange(2): p=two_tors(r,A)
        if r.randrange(3)==0: return [w2(A),wpt(r,p),'-','0']
        L=r.choice([0,0,1,2,bl])
    elif k==0: L=bl
    elif k==1: L=max(0,bl-r.randrange(0,4))
    else: L=bl+r.randrange(0,30)
    nb=max(1,(max(L,bl)+7)//8)
    m=n if r.randrange(2) else n|(r.randrange(1<<8)<<(8*nb-8))
    m&=(1<<(8*nb))-1
    return [w2(A),wpt(r,p),m.to_bytes(nb,'little').hex(),str(L)]
OPS['ec.mul']=Op('ec.mul',g_mul,o_pts(lambda A,p,n,L:emul(g2(A),pp(p),int.from_bytes(bytes.fromhex(n.strip('-')),'little')&((1<<int(L))-1))))
def g_ms(r): A,p=sspt(r); return [w2(A),wpt(r,p),str(r.choice([0,1,2,3,4,5,7,8,r.randrange(100),2**64-1,2**63,r.randrange(2**64),r.randrange(2**22),2**21]))]
OPS['ec.mul_small']=Op('ec.mul_small',g_ms,o_pts(lambda A,p,n:emul(g2(A),pp(p),int(n))))
def g_mb(r): A,p=sspt(r); return [w2(A),wpt(r,p),hx(g_scalar(r,A,p))]
OPS['ec.mul_big']=Op('ec.mul_big',g_mb,o_pts(lambda A,p,n:emul(g2(A),pp(p),un(n))))

def g_clr(r):
    A,p=sspt(r); e=r.choice([0,1,2,3,8,9,r.randrange(40)]); return [w2(A),wpt(r,p),hx(g_scalar(r,A,p)<<e),str(e)]
OPS['ss.clear']=Op('ss.clear',g_clr,o_pts(lambda A,p,k,e:emul(g2(A),pp(p),un(k))))
