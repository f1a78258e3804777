"""The Weil and Tate pairings.  Line evaluation is a polynomial identity over the field contracts.  For the Miller loop a
field element is a product of values of normalised functions with known divisors: a formal divisor over the multiples of the
base point (the point at infinity takes up the degree), evaluated at the other point, times a power of its Z coordinate."""
from prop_grp import *
import prop_ec as pe
import functools
PA='pairing::'
# ------------------------------------------------------------------------------------------------ lines
def line_cases():
    L=[('different x',pe.pair_case('different x')),('tangent',pe.pair_case('equal')),('opposite',pe.pair_case('opposite')),
       ('order two, x=0',pe.pair_case('order two, x=0')),('order two, x<>0',pe.pair_case('order two, x<>0'))]
    return L
def line_ob(p,crate):
    def mk(ctx,f,case):
        d=ctx.dom; ctx.A,ctx.p,ctx.q,_=case(d); ctx.R=(d.var('RX'),d.var('RY'),d.var('RZ'))
        return [Ref(Cell(pe.curve(d,ctx.A))),Ref(Cell(ctx.p.rep)),Ref(Cell(ctx.q.rep)),Ref(Cell(ctx.R))]
    def post(ctx,r,case):
        d=ctx.dom; r=d.fe(r); (x1,y1),(x2,y2)=ctx.p.aff,ctx.q.aff; X,Y,Z=ctx.R
        if d.equal(x1,x2) and d.equal(y1,d.neg(y2)):
            yield 'vertical line X - x1 Z',d.equal(r,d.sub(X,d.mul(x1,Z))); return
        if d.equal(x1,x2):
            lam=d.mul(d.add(d.add(d.scale(d.mul(x1,x1),3),d.scale(d.mul(ctx.A,x1),2)),d.const(1)),d.inv(d.scale(y1,2)))
        else: lam=d.mul(d.sub(y2,y1),d.inv(d.sub(x2,x1)))
        yield 'line Y - y1 Z - lambda (X - x1 Z)',d.equal(r,d.sub(d.sub(Y,d.mul(y1,Z)),d.mul(lam,d.sub(X,d.mul(x1,Z)))))
    return Ob(p,'eval_line',PA+'eval_line','field',pe.ec_run(PA+'eval_line',line_cases(),mk,post),search=['pr.weil','pr.tate'],weight=2)

# ------------------------------------------------------------------------------------------------ Miller functions
class PtK(Sym):
    """[k]B for a base point B"""
    __slots__=('b','k')
    def __init__(self,b,k): self.b=b; self.k=k
    def same(self,o): return isinstance(o,PtK) and (self.b,self.k)==(o.b,o.k)
    def __repr__(self): return '[%s]%s'%(IV(self.k).__repr__()[3:-1],self.b)
class ZT(Sym):
    __slots__=('b','c')
    def __init__(self,b,c): self.b=b; self.c=c
class FV(Sym):
    """sign * product of (function on base a with divisor c at index i, evaluated at b) * Z_b^n"""
    __slots__=('s','div','z')
    def __init__(self,s=1,div=None,z=None): self.s=s; self.div=div or {}; self.z=z or {}
    def same(self,o): return isinstance(o,FV) and self.s==o.s and self.div==o.div and self.z==o.z
    def __repr__(self): return 'FV(%d,%s,%s)'%(self.s,{k[:2]+(IV(dict(k[2])),):IV(v) for k,v in self.div.items()},self.z)
def kk(p): return tuple(sorted(p.items()))
class MilDom(IntDom):
    """facts about which multiples vanish: zero[b] = list of index polynomials; nonzero[b] likewise"""
    def __init__(self,contracts):
        IntDom.__init__(self,contracts); self.zero={}; self.nonzero={}; self.hr={}; self.exact={}; self.hn=0; self.one=None
    def fresh_like(self,ctx,name,v):
        if isinstance(v,PtK): return PtK(v.b,{(name,):1})
        f=fv_(ctx,v)
        if f is not None: return FV(f.s,dict(f.div),dict(f.z))
        return IntDom.fresh_like(self,ctx,name,v)
    # ---- prefixes of the order: H(t) = floor(order / 2^t), H(t) = 2 H(t+1) + bit(t)
    def H(self,t):
        if not t: return {('n',):1}
        return {(self.hname(t),):1}
    def hname(self,t):
        n='H[%s]'%IV(t).__repr__()[3:-1]; self.hr.setdefault(n,[dict(t),None]); return n
    def hnorm(self,p):
        ch=True
        while ch:
            ch=False
            for v in sorted({v for m in p for v in m}):
                r=self.hr.get(v)
                if r is None: continue
                t,b=r
                if t!={} and self.proves(self.z(t)==0): p=subst(p,v,{('n',):1}); ch=True; break
                if self.proves(self.z(t)==self.z(self.top)): p=subst(p,v,pconst(1)); ch=True; break
                if b is not None: p=subst(p,v,padd(pscale(self.H(padd(t,pconst(1))),2),pconst(b))); ch=True; break
        return p
    def red(self,b,k):
        """canonical index of the multiple [k]b"""
        if b in self.exact:
            if all(m==() for m in k): c=k.get((),0)%self.exact[b]; return pconst(c) if c else {}
        k=self.hnorm(k); best=k
        for z in self.zero.get(b,[]):
            z=self.hnorm(z)
            if not z: continue
            for c in(-4,-3,-2,-1,1,2,3,4):
                t=padd(k,z,c)
                if (len(t),sum(map(len,t)),sum(abs(x) for x in t.values()))<(len(best),sum(map(len,best)),sum(abs(x) for x in best.values())): best=t
        return self.red(b,best) if best!=k else k
    def isinf(self,ctx,p):
        k=self.red(p.b,p.k)
        if not k: return True
        if p.b in self.exact and all(m==() for m in k): return k.get((),0)%self.exact[p.b]==0
        for q in self.nonzero.get(p.b,[]):
            q=self.red(p.b,q)
            if q==k or pscale(q,-1)==k: return False
        if k in(pconst(1),pconst(-1)) and self.nonzero.get(p.b): return False     # a multiple of it is finite
        if ctx.decide(2,'infinite')==0:
            self.zero.setdefault(p.b,[]).append(k)
            if any(not self.red(p.b,q) for q in self.nonzero.get(p.b,[])): raise Infeasible()
            return True
        self.nonzero.setdefault(p.b,[]).append(k); return False
    def div(self,f):
        o={}
        for (a,b,i),c in f.div.items():
            k=self.red(a,dict(i)); c=self.hnorm(c)
            if not k: continue
            key=(a,b,kk(k)); o[key]=padd(o.get(key,{}),c)
        return {k:c for k,c in o.items() if c}
    def zs(self,f): return {k:v for k,v in f.z.items() if v}
    def eqv(self,f,g): return f.s==g.s and self.div(f)==self.div(g) and self.zs(f)==self.zs(g)
def fv_(ctx,v):
    v=ld(ctx,v)
    if isinstance(v,FV): return v
    if v==ctx.dom.one: return FV()
    if v==ctx.dom.mone: return FV(-1)
    if isinstance(v,ZT) and v.c==2: return FV(1,{},{v.b:1})
    return None
def fv(ctx,v):
    r=fv_(ctx,v)
    if r is None: raise Unsupported('field value %r'%(type(v).__name__,))
    return r
def fmul(f,g,s=1):
    d=dict(f.div); z=dict(f.z)
    for k,c in g.div.items():
        n=padd(d.get(k,{}),c,s)
        if n: d[k]=n
        else: d.pop(k,None)
    for k,c in g.z.items():
        z[k]=z.get(k,0)+s*c
        if not z[k]: del z[k]
    return FV(f.s*g.s,d,z)
def miller(n,a,b):
    """the normalised function with divisor n(a)-([n]a)-(n-1)(O), at b"""
    return FV(1,{(a,b,kk(pconst(1))):n,(a,b,kk(n)):pconst(-1)}) if n!=pconst(1) else FV()
def mil_contracts():
    C={}
    def pk(ctx,v):
        v=ld(ctx,v)
        if not isinstance(v,PtK): raise Unsupported('point expected')
        return v
    def add(ctx,x,y,s=1):
        if x.b!=y.b: raise Unsupported('sum of points of different bases')
        return PtK(x.b,padd(x.k,y.k,s))
    def st(ctx,r,v): ctx.store(r,v); return ()
    C[CV+'add']=lambda ctx,a: add(ctx,pk(ctx,a[1]),pk(ctx,a[2]))
    C[CV+'sub']=lambda ctx,a: add(ctx,pk(ctx,a[1]),pk(ctx,a[2]),-1)
    C[CV+'addto']=lambda ctx,a: st(ctx,a[1],add(ctx,pk(ctx,a[1]),pk(ctx,a[2])))
    C[CV+'double']=lambda ctx,a: (lambda p:PtK(p.b,pscale(p.k,2)))(pk(ctx,a[1]))
    C[CV+'double_self']=lambda ctx,a: st(ctx,a[1],(lambda p:PtK(p.b,pscale(p.k,2)))(pk(ctx,a[1])))
    for n in('<ecFESTA::Point as Neg>::neg','<ecFESTA::&Point as Neg>::neg'):
        C[n]=lambda ctx,a: (lambda p:PtK(p.b,pscale(p.k,-1)))(pk(ctx,a[0]))
    C[PT+'isinfinity']=lambda ctx,a: 0xFFFFFFFF if ctx.dom.isinf(ctx,pk(ctx,a[0])) else 0
    C[PT+'to_xyz']=lambda ctx,a: (lambda p:tuple(ZT((p.b,kk(p.k)),i) for i in range(3)))(pk(ctx,a[0]))
    C[PT+'to_xz']=lambda ctx,a: (lambda p:tuple(ZT((p.b,kk(p.k)),i) for i in(0,2)))(pk(ctx,a[0]))
    def line(ctx,a):
        p,q,r=pk(ctx,a[1]),pk(ctx,a[2]),pk(ctx,a[3]); d=ctx.dom
        if p.b!=q.b: raise Unsupported('line through points of different bases')
        for x in(p,q):
            if d.isinf(ctx,x): raise Panic('line through the point at infinity')
        R=(r.b,kk(r.k)); f=FV(1,{},{R:1})
        for i in(p.k,q.k,pscale(padd(p.k,q.k),-1)): f=fmul(f,FV(1,{(p.b,R,kk(i)):pconst(1)}))
        return f
    C[PA+'eval_line']=line
    C[FP2+'set_mul']=lambda ctx,a: st(ctx,a[0],fmul(fv(ctx,a[0]),fv(ctx,a[1])))
    C[FP2+'set_div']=lambda ctx,a: st(ctx,a[0],fmul(fv(ctx,a[0]),fv(ctx,a[1]),-1))
    sq=lambda f:fmul(f,f)
    C[FP2+'square']=lambda ctx,a: sq(fv(ctx,a[0]))
    C[FP2+'set_square']=lambda ctx,a: st(ctx,a[0],sq(fv(ctx,a[0])))
    inv=lambda f:fmul(FV(f.s),f,-1)
    def inv(f): r=fmul(FV(),f,-1); r.s=f.s; return r
    C[FP2+'invert']=lambda ctx,a: inv(fv(ctx,a[0]))
    C[FP2+'set_invert']=lambda ctx,a: st(ctx,a[0],inv(fv(ctx,a[0])))
    C[FP2+'set_neg']=lambda ctx,a: st(ctx,a[0],(lambda f:FV(-f.s,dict(f.div),dict(f.z)))(fv(ctx,a[0])))
    def isz(ctx,f):
        """a product of line values vanishes only if the two points are dependent"""
        if not f.div: return False
        return ctx.decide(2,'vanishes')==1
    def iszero(ctx,a):
        z=isz(ctx,fv(ctx,a[0]))
        if z: ctx.vanish=True
        return 0xFFFFFFFF if z else 0
    C[FP2+'iszero']=iszero
    def eq(ctx,a):
        f,g=fv(ctx,a[0]),fv(ctx,a[1])
        if ctx.dom.eqv(f,g): return 0xFFFFFFFF
        raise Unsupported('comparison of field values')
    C[FP2+'equals']=eq
    return C
def ones(env):
    ctx=Ctx(env.crate,IntDom({})); return ctx.const_path(FP2+'ONE'),ctx.const_path(FP2+'MINUS_ONE')
class VIdx:
    """the running point is [H(t)]B"""
    first=True
    def __init__(self,v,t): self.v=v; self.t=t; self.name='%s=[H(%s)]B'%(v,t)
    def holds(self,ctx,vals,init):
        d=ctx.dom; p=vals[self.v]; return not d.red(p.b,padd(p.k,d.H(pol(vals[self.t])),-1))
    def assume(self,ctx,vals): vals[self.v].k=ctx.dom.H(pol(vals[self.t]))
class FVal:
    """the accumulated value is the normalised function of index H(t)"""
    first=True
    def __init__(self,f,t,a,b): self.f=f; self.t=t; self.a=a; self.b=b; self.name='%s=f_H(%s)'%(f,t)
    def want(self,ctx,vals): return miller(ctx.dom.H(pol(vals[self.t])),self.a,(self.b,kk(pconst(1))))
    def holds(self,ctx,vals,init):
        f=fv_(ctx,vals[self.f]); return f is not None and ctx.dom.eqv(f,self.want(ctx,vals))
    def assume(self,ctx,vals):
        w=self.want(ctx,vals); x=vals[self.f]; x.s,x.div,x.z=w.s,w.div,w.z
def c17(crate):
    p='C17'; obs=[line_ob(p,crate)]
    has=crate.get(PA+'miller_loop') is not None
    loopfn=PA+('miller_loop' if has else 'tate_pairing')
    B=kk(pconst(1))
    def setup(ctx,env):
        d=ctx.dom; d.one,d.mone=ones(env); ctx.vanish=False
    # ---- every order: loop invariant over the prefixes of the order
    def loop(env,res):
        fn=env.fn(loopfn); out=[]
        class Dm(MilDom):
            def bigbits(self,ctx,x):
                if pol(x)!={('n',):1}: raise Unsupported('bits of another number')
                return IV({('N',):1})
            def bigbit(self,ctx,x,t):
                if pol(x)!={('n',):1}: raise Unsupported('bit of another number')
                t=pol(t); nm=self.hname(t) if t else None
                if nm is None: nm='H[0]'; self.hr.setdefault(nm,[{},None])
                r=self.hr[nm]
                if r[1] is None:
                    r[1]=ctx.decide(2,'bit')
                    if not t: ctx.bit0=r[1]
                return bool(r[1])
            def H(self,t):
                if not t:
                    return {('n',):1} if 'H[0]' not in self.hr else {('H[0]',):1}
                return MilDom.H(self,t)
        def args(ctx):
            setup(ctx,env); d=ctx.dom; d.var('N',lo=1,hi=1<<64); d.top=padd({('N',):1},pconst(-1)); d.zero['P']=[{('n',):1}]
            return [Ref(Cell(Opaque('curve'))),Ref(Cell(PtK('P',pconst(1)))),Ref(Cell(PtK('Q',pconst(1)))),Ref(Cell(IV({('n',):1})))]
        def tmpl(ctx,vals,bb):
            c=[]
            ints=[k for k,v in vals.items() if isinstance(v,(IV,int)) and not isinstance(v,bool)]
            for i in ints:
                c.append(Cand('%s>=0'%(i,),[i],lambda u:u>=0)); c.append(Cand('%s<=N-1'%(i,),[i],lambda u:u<=z3.Int('N')-1))
            for t in ints:
                for v,x in vals.items():
                    if isinstance(x,PtK): c.append(VIdx(v,t))
                    elif fv_(ctx,x) is not None: c.append(FVal(v,t,'P','Q'))
            return c
        L=LoopProof(env,fn,lambda:Dm(mil_contracts()),args,tmpl)
        for o in L.run():
            res.paths+=1; note(res,o.ctx); d=o.ctx.dom
            if o.kind!='return': out.append(('no panic',True if not d.feasible() else None,'%s %s'%(o.msg,L.invariants))); continue
            f=fv_(o.ctx,o.ret)
            if o.ctx.vanish: out.append(('a vanishing value is reported as 0 or 1',f is not None and (not f.div or has) or None,repr(f))); continue
            out.append(('result is the function with divisor n(P)-n(O) at Q',(f is not None and d.eqv(f,miller({('n',):1},'P',('Q',B)))) or None,'%r %r'%(f,L.invariants)))
        res.vcs+=L.vcs
        return out
    obs.append(Ob(p,'Miller loop, every order',loopfn,'divisors+loop invariants',loop,search=['pr.tate','pr.weil'],fallback=True,weight=3))
    # ---- the Weil pairing over the contract of the Miller loop, every order
    def symdom(env,con):
        class Dm(MilDom):
            def bigbit(self,ctx,x,t):
                if pol(x)!={('n',):1} or t!=0: raise Unsupported('bit of another number')
                if ctx.bit0 is None: ctx.bit0=ctx.decide(2,'bit')
                return bool(ctx.bit0)
            def binop(self,ctx,op,ty,a,b): return IntDom.binop(self,ctx,op,ty,a,b)
        return Dm(con)
    def weil_check(ctx,n,ret,odd):
        d=ctx.dom; f=fv_(ctx,ret); dep=ctx.vanish or any(d.isinf(ctx,PtK(b,pconst(1))) for b in'PQ')
        if f is None: return 'value',None,repr(ret)
        if dep: return 'dependent points pair to one',d.eqv(f,FV()),repr(f)
        w=fmul(miller(n,'P',('Q',B)),miller(n,'Q',('P',B)),-1); w.s=-1 if odd else 1
        return 'result is (-1)^n f_P(Q)/f_Q(P)',d.eqv(f,w),repr(f)
    def weil(env,res):
        fn=env.fn(PA+'weil_pairing'); out=[]
        def con():
            C=mil_contracts()
            def ml(ctx,a):
                x,y=ld(ctx,a[1]),ld(ctx,a[2])
                if pol(ld(ctx,a[3]))!={('n',):1}: raise Unproved('Miller loop for another order')
                return miller({('n',):1},x.b,(y.b,kk(y.k)))
            C[PA+'miller_loop']=ml
            return C
        def args(ctx):
            setup(ctx,env); d=ctx.dom; ctx.bit0=None
            for b in'PQ': d.zero[b]=[{('n',):1}]
            return [Ref(Cell(Opaque('curve'))),Ref(Cell(PtK('P',pconst(1)))),Ref(Cell(PtK('Q',pconst(1)))),Ref(Cell(IV({('n',):1})))]
        for o in explore(env.crate,lambda:symdom(env,con()),fn,args):
            res.paths+=1; note(res,o.ctx)
            if o.kind!='return': out.append(('no panic',None,o.msg)); continue
            l,v,i=weil_check(o.ctx,{('n',):1},o.ret,o.ctx.bit0); out.append((l,v or None,i))
        return out
    if has: obs.append(Ob(p,'weil_pairing over the Miller loop, every order',PA+'weil_pairing','divisors',weil,search=['pr.weil'],fallback=True))
    # ---- everything executed, for given orders of the points
    def given(env,res,name,orders):
        fn=env.fn(PA+name); out=[]
        for n,a,b in orders:
            def args(ctx):
                setup(ctx,env); d=ctx.dom; d.exact={'P':a,'Q':b}
                return [Ref(Cell(Opaque('curve'))),Ref(Cell(PtK('P',pconst(1)))),Ref(Cell(PtK('Q',pconst(1)))),Ref(Cell(n))]
            for o in explore(env.crate,lambda:MilDom(mil_contracts()),fn,args):
                res.paths+=1; note(res,o.ctx); lab='order %s, points of order %s, %s: '%tuple(x if x<10**6 else '~2^%d'%x.bit_length() for x in(n,a,b))
                if o.kind!='return': out.append((lab+'no panic',False,o.msg)); continue
                ctx=o.ctx; d=ctx.dom
                if name=='weil_pairing': l,v,i=weil_check(ctx,pconst(n),o.ret,n&1)
                else:
                    f=fv_(ctx,o.ret); l='f_P(Q)'; i=repr(f)
                    v=None if f is None else (d.eqv(f,FV()) if ctx.vanish else d.eqv(f,miller(pconst(n),'P',('Q',B))))
                out.append((lab+l,v,i))
        return out
    div=lambda n:[x for x in range(1,n+1) if n%x==0]
    import prop_const
    small=[(n,a,b) for n in range(1,41) for a in div(n) for b in div(n)]
    for name in('weil_pairing','tate_pairing'):
        sm=small if name=='weil_pairing' else [(n,a,1) for n in range(1,80) for a in div(n)]
        for k in range(4): obs.append(Ob(p,'%s, all point orders, small orders %d mod 4'%(name,k),PA+name,'divisors',lambda env,res,k=k,name=name,sm=sm:given(env,res,name,sm[k::4]),search=['pr.weil','pr.tate'],bound='orders up to %d'%sm[-1][0]))
        def scheme(env,res,name=name):
            Ns=[]; ev=1<<const(env,'L_POWER')
            for l in('D1','D2','DA1','DA2'):
                Ns.append(functools.reduce(lambda x,y:x*y,[q**e for q,e in const(env,l+'_FACTORED')]))
            Ns+=[ev,Ns[0]*Ns[1]]
            o=[]
            for n in Ns: o+=[(n,n,n)]+([(n,n//2,n),(n,n,1<<300)] if n==ev else [])
            return given(env,res,name,o)
        obs.append(Ob(p,name+', the orders of the scheme',PA+name,'divisors',scheme,search=['pr.weil'],bound='orders D1, D2, DA1, DA2, 2^634, D1*D2'))
    return obs
