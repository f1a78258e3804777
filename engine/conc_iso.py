"""Oracles for curve isomorphisms and the j-invariant."""
from conc_ec import *
from conc_int import chi2
C92=pow(9*pow(2,-1,P),(P+1)//4,P)
def jinv(A):
    A2=sqr2(A); t=sub2(A2,(3,0)); return div2(scale2(mul2(t,sqr2(t)),256),sub2(A2,(4,0)))
def isopair(r):
    k=r.randrange(6)
    if k==0: A=rA(r); return A,A
    if k==1: A=rA(r); return A,neg2(A)
    if k==2:
        c=(r.choice([C92,P-C92]),0); return r.choice([(ZERO2,c),(c,ZERO2)])
    while 1:
        s=r2(r); s2=sqr2(s); s4=sqr2(s2)
        if ZERO2 in(s,add2(s2,ONE2),sub2(s2,ONE2)): continue
        u=div2(sub2(ONE2,s2),scale2(s,2)); v=div2(add2(ONE2,s2),scale2(s,2))
        if chi2(u)!=1: continue
        A1=neg2(div2(add2(sqr2(v),ONE2),v)); A2=div2(add2(scale2(v,3),A1),u)
        return A2,A1
def g_new(r):
    A2,A1=isopair(r); p,q=apoint(r,A2),apoint(r,A2)
    return [w2(A2),w2(A1)]+[wpt(r,x) for x in(p,q,eadd(A2,p,q),eadd(A2,p,p),None)]
def o_new(args,out):
    if out[0]!='ok': return str(out)
    A1=g2(args[1]); pts=[rpt_(x) for x in args[2:]]; im=[rpt_(x) for x in out[1]]
    for i,(x,y) in enumerate(zip(pts,im)):
        if (x is None)!=(y is None): return 'image of point %d: infinity'%i
        if y is not None and sqr2(y[1])!=rhs_(A1,y[0]): return 'image of point %d is not on the codomain'%i
    if eadd(A1,im[0],im[1])!=im[2] or eadd(A1,im[0],im[0])!=im[3]: return 'not additive'
OPS['is.new']=Op('is.new',g_new,o_new)
OPS['is.j']=Op('is.j',lambda r:[w2(rA(r))],lambda a,o:(None if g2(o[1][0])==jinv(g2(a[0])) else 'wrong j') if o[0]=='ok' else str(o))
