"""Oracles for the pairings: a textbook Miller loop on affine points, numerator and denominator kept apart."""
from conc_int import *
from conc_ec import eadd,eneg,emul,w2,g2,wpt,rpt_
def line(A,p,q,r):
    """normalised line through p and q at r"""
    if p is None or q is None: 
        s=p or q
        return ONE2 if s is None else sub2(r[0],s[0])
    if p==eneg(q): return sub2(r[0],p[0])
    if p==q: l=div2(add2(add2(scale2(sqr2(p[0]),3),scale2(mul2(A,p[0]),2)),ONE2),scale2(p[1],2))
    else: l=div2(sub2(q[1],p[1]),sub2(q[0],p[0]))
    return sub2(sub2(r[1],p[1]),mul2(l,sub2(r[0],p[0])))
def millerf(A,p,q,n):
    """f with divisor n(p)-n(O) at q; None if a factor vanishes"""
    if p is None or q is None: return ONE2
    f=ONE2; v=p
    def step(f,v,w,s):
        a=line(A,v,w,q) if not(v is None and w is None) else ONE2
        b=line(A,s,eneg(s),q) if s is not None else ONE2
        if v is None or w is None: return f      # l_{O,w}/v_w = 1
        if a==ZERO2 or b==ZERO2: return None
        return div2(mul2(f,a),b)
    for c in bin(n)[3:]:
        s=eadd(A,v,v); f=step(sqr2(f),v,v,s); v=s
        if f is None: return None
        if c=='1':
            s=eadd(A,v,p); f=step(f,v,p,s); v=s
            if f is None: return None
    assert v is None
    return f
def weil(A,p,q,n):
    if p is None or q is None: return ONE2
    a,b=millerf(A,p,q,n),millerf(A,q,p,n)
    if a is None or b is None: return ONE2
    w=div2(a,b); return neg2(w) if n&1 else w
def pforder(r):
    k=r.randrange(4)
    if k==0: return [(2,r.randrange(1,9))]
    if k==1: return [(2,634)] if r.randrange(6)==0 else [(2,r.randrange(1,40))]
    f=rfac(r)
    if k==2: f=[(2,r.randrange(1,8))]+[x for x in f if x[0]!=2][:2]
    return f
def g_pair(r,indep=False):
    f=pforder(r)
    p,q=tbasis(r,f); D=prod(f)
    if indep: return [w2(A6),wpt(r,p),wpt(r,q),'%x'%D]
    k=r.randrange(4); l=r.choice(f)[0]
    if k==0: R,S=p,q
    elif k==1: R,S=emul(A6,p,r.randrange(D)),lincomb(p,r.randrange(D),q,r.randrange(D))
    elif k==2: R,S=emul(A6,p,r.choice([0,1,l,D//l,D-1])),lincomb(p,r.choice([0,1,2,D//l,r.randrange(D)]),q,r.choice([0,0,l,D//l]))
    else: R,S=lincomb(p,r.randrange(D),q,r.randrange(D)),lincomb(p,r.randrange(D),q,r.randrange(D))
    if r.randrange(2): R,S=S,R
    return [w2(A6),wpt(r,R),wpt(r,S),'%x'%D]
def o_weil(args,out):
    if out[0]!='ok': return str(out)
    p,q=rpt_(args[1]),rpt_(args[2]); w=weil(g2(args[0]),p,q,int(args[3],16))
    if g2(out[1][0])!=w: return 'not the Weil pairing'
def o_tate(args,out):
    if out[0]!='ok': return str(out)
    w=millerf(g2(args[0]),rpt_(args[1]),rpt_(args[2]),int(args[3],16))
    if w is not None and g2(out[1][0])!=w: return 'not the Miller function'
OPS['pr.weil']=Op('pr.weil',g_pair,o_weil)
OPS['pr.tate']=Op('pr.tate',lambda r:g_pair(r,True),o_tate)
