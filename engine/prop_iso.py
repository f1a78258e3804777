"""Isomorphisms between Montgomery curves and the j-invariant, over the contracts of the extension field.  A map
(x,y) -> (u x + v, w y) carries y^2 = x^3 + A2 x^2 + x to y^2 = x^3 + A1 x^2 + x exactly when
3v + A1 = u A2,  3v^2 + 2 A1 v + 1 = u^2,  v^3 + A1 v^2 + v = 0,  w^2 = u^3,  u <> 0."""
from prop_ec import *
IS='ecFESTA::CurveIsomorphism::'
def conditions(d,A2,A1,u,v,w):
    m,a,s=d.mul,d.add,d.scale
    yield 'u is not zero',d.known(u.n)[0]==1
    yield '3v + A1 = u A2',d.equal(a(s(v,3),A1),m(u,A2))
    yield '3v^2 + 2 A1 v + 1 = u^2',d.equal(a(a(s(m(v,v),3),s(m(A1,v),2)),d.const(1)),m(u,u))
    yield 'v is the x of a point of order two',d.equal(m(v,a(a(m(v,v),m(A1,v)),d.const(1))),d.const(0))
    yield 'w^2 = u^3',d.equal(m(w,w),m(u,m(u,u)))
def generic(d,facts=True):
    """A1^2 <> A2^2: with (v,u) the isomorphism, v^2-u^2 = 1 is parametrised by s = v-u"""
    s=d.var('s',nonzero=True); s2=d.mul(s,s); one=d.const(1)
    d.assume_nz(d.add(s2,one).n); d.assume_nz(d.sub(s2,one).n); d.assume_nz(d.sub(s,one).n); d.assume_nz(d.add(s,one).n); s4=d.mul(s2,s2)
    A1=d.mul(d.neg(d.add(d.add(s4,d.scale(s2,6)),one)),d.inv(d.scale(d.mul(s,d.add(s2,one)),2)))
    A2=d.mul(d.scale(d.add(s4,one),2),d.inv(d.sub(one,s4)))
    u=d.mul(d.sub(one,s2),d.inv(d.scale(s,2))); v=d.mul(d.add(one,s2),d.inv(d.scale(s,2)))
    if facts:
        for f in(A1,A2,d.sub(A1,A2),d.add(A1,A2)): d.assume_nz(f.n)
        # denominators of the closed formula
        d.assume_nz(d.sub(d.mul(A2,A2),d.const(3)).n)
    return A2,A1,u,v
CASES=['A1 = A2','A1 = -A2','A1 = 0, A2^2 = 9/2 (+)','A1 = 0, A2^2 = 9/2 (-)','A2 = 0, A1^2 = 9/2 (+)','A2 = 0, A1^2 = 9/2 (-)','A1^2 <> A2^2, both non-zero']
C92=pow(9*pow(2,-1,P),(P+1)//4,P)
def curves(d,case):
    if case.startswith('A1 = A2') or case.startswith('A1 = -A2'):
        A=d.var('A'); d.assume_nz(d.sub(A,d.const(2)).n); d.assume_nz(d.add(A,d.const(2)).n)
        return A,(A if '-' not in case else d.neg(A))
    if '9/2' in case:
        assert C92*C92%P==9*pow(2,-1,P)%P
        c=d.const(C92 if '+' in case else P-C92); return (c,d.const(0)) if case.startswith('A1') else (d.const(0),c)
    A2,A1,u,v=generic(d); d.sqelems+=[(u,1),(d.mul(u,d.mul(u,u)),1)]
    return A2,A1
def c14(crate):
    p='C14'; obs=[]
    def ob(label,fn,cases,mk,post,search,w=2,more=None): obs.append(Ob(p,label,fn,'field',ec_run(fn,cases,mk,post,more),search=search,weight=w))
    # j-invariant
    def mk(ctx,f,case):
        d=ctx.dom; ctx.A=d.var('A'); d.assume_nz(d.sub(ctx.A,d.const(2)).n); d.assume_nz(d.add(ctx.A,d.const(2)).n); d.assume_nz(d.sub(d.mul(ctx.A,ctx.A),d.const(4)).n)
        return [Ref(Cell(curve(d,ctx.A)))]
    def post(ctx,r,case):
        d=ctx.dom; A2=d.mul(ctx.A,ctx.A); t=d.sub(A2,d.const(3))
        yield 'j (A^2-4) = 256 (A^2-3)^3',d.equal(d.mul(d.fe(r),d.sub(A2,d.const(4))),d.scale(d.mul(t,d.mul(t,t)),256))
    ob('j_invariant',CV+'j_invariant',[('A^2 <> 4',None)],mk,post,['is.j'])
    # constructor
    flds=['u','v','w']; fo=crate.field_order('ecFESTA::CurveIsomorphism') or flds
    for case in CASES:
        def mk(ctx,f,c):
            d=ctx.dom; ctx.A2,ctx.A1=curves(d,c); return [Ref(Cell(curve(d,ctx.A2))),Ref(Cell(curve(d,ctx.A1)))]
        def post(ctx,r,c):
            if sorted(fo)!=flds: raise Unsupported('fields of CurveIsomorphism')
            d=ctx.dom; g={f:d.fe(x) for f,x in zip(fo,r)}
            yield from conditions(d,ctx.A2,ctx.A1,g['u'],g['v'],g['w'])
        ob('CurveIsomorphism::new, '+case,IS+'new',[(case,case)],mk,post,['is.new'])
    # evaluation
    def mk(ctx,f,case):
        d=ctx.dom; g={k:d.var(k,nonzero=k!='v') for k in flds}; ctx.g=g; ctx.p=case(d)
        return [Ref(Cell(tuple(g[k] for k in fo))),Ref(Cell(ctx.p.rep))]
    def post(ctx,r,case):
        d=ctx.dom; g=ctx.g; w=ctx.p.aff and (d.add(d.mul(g['u'],ctx.p.aff[0]),g['v']),d.mul(g['w'],ctx.p.aff[1]))
        yield from check(ctx,'image (u x + v, w y)',r,w)
    def anyp(d): return PtS((d.var('x'),d.var('y')),None)
    def fin(d):
        x,y,z=d.var('x'),d.var('y'),d.var('z',nonzero=True); return PtS((x,y),(d.mul(x,z),d.mul(y,z),z))
    ob('CurveIsomorphism::eval',IS+'eval',[('finite',fin),('infinity',lambda d:infinite(d,''))],mk,post,['is.new'])
    # lemmas about such maps
    def lemma(env,res):
        out=[]
        def setup(lead):
            d=Field(P,'fp2',C2())
            if lead=='v = 0': e=d.var('e'); d.R.sq[max(d.R.vars(e.n))]={():1}; A1=d.var('A1'); u=e; v=d.const(0); A2=d.mul(A1,e); d.assume_nz(e.n)    # u = e, e^2 = 1
            else: A2,A1,u,v=generic(d,False)
            u3=d.mul(u,d.mul(u,u)); n=d.norm(d.R.mul(u3.n,u3.d)); w=d.var('w',root_of=n); w=d.mul(w,d.inv(FE(u3.d))); d.assume_nz(w.n)
            for c in conditions(d,A2,A1,u,v,w): out.append(('%s: %s'%(lead,c[0]),c[1],''))
            f=lambda p:(d.add(d.mul(u,p[0]),v),d.mul(w,p[1]))
            return d,A2,A1,f
        for lead in('v = 0','v <> 0'):
            d,A2,A1,f=setup(lead); x,y=d.var('x'),None
            y=d.var('y',root_of=None); X,Y=f((x,y))
            # Y^2 - rhs(X) = u^3 (y^2 - rhs(x))
            y2=rhs(d,A2,x); ww=d.mul(f((x,d.const(1)))[1],f((x,d.const(1)))[1])
            out.append((lead+': the image is on the codomain',d.equal(d.mul(ww,y2),rhs(d,A1,X)),''))
            d,A2,A1,f=setup(lead); p=(d.var('x1'),d.var('y1')); q=(d.var('x2'),d.var('y2')); dx=d.sub(q[0],p[0]); d.assume_nz(dx.n)
            lam=d.mul(d.sub(q[1],p[1]),d.inv(dx)); s=f(chord(d,A2,p,q,lam)); P_,Q_=f(p),f(q); DX=d.sub(Q_[0],P_[0]); d.assume_nz(DX.n)
            t=chord(d,A1,P_,Q_,d.mul(d.sub(Q_[1],P_[1]),d.inv(DX)))
            for i in(0,1): out.append((lead+': f(P+Q) = f(P)+f(Q) '+'xy'[i],d.equal(s[i],t[i]),''))
            d,A2,A1,f=setup(lead); p=(d.var('x1'),d.var('y1',nonzero=True)); P_=f(p); s=f(dbl(d,A2,p)); t=dbl(d,A1,P_)
            for i in(0,1): out.append((lead+': f(2P) = 2f(P) '+'xy'[i],d.equal(s[i],t[i]),''))
            out.append((lead+': f(-P) = -f(P)',d.equal(f(neg(d,p))[1],neg(d,P_)[1]) and d.equal(f(neg(d,p))[0],P_[0]),''))
        return out
    obs.append(Ob(p,'lemma: maps meeting the conditions are group isomorphisms','','field',lemma,search=[]))
    return obs
