"""Order tests, point generation and discrete logarithms, over the contracts of the group operations.  A group element is
base^k with k an integer polynomial in the unknowns of the obligation (additively: [k]base); the order of the base is the
product of the given prime powers, so equality is a statement about integers, decided by z3."""
import z3,itertools
from spec import *
from obl import *
from intdom import *
from loopinv import *
DL='discrete_log::'; SS='supersingular::'; FP2='fields::FpFESTAExt::Fp2::'; EC='ecFESTA::'; CV=EC+'Curve::'; PT=EC+'Point::'

class GE(Sym):
    """base^k (base None: the identity whatever k)"""
    __slots__=('k','b')
    def __init__(self,k,b='g'): self.k=k; self.b=b
    def same(self,o): return isinstance(o,GE) and self.k==o.k and self.b==o.b
    def __repr__(self): return 'GE(%s^%r)'%(self.b,IV(self.k))
class SymVec(Sym):
    """vector of unknown length n whose t-th item is func(t), followed by the items in extra"""
    __slots__=('n','func','extra')
    def __init__(self,n,func,extra=()): self.n=n; self.func=func; self.extra=tuple(extra)
    def same(self,o): return self is o
    def length(self): return padd(self.n,pconst(len(self.extra))) if self.extra else self.n
class Items:
    """descriptions the items are assumed to satisfy; the first is used"""
    def __init__(self,fs): self.fs=fs
    def __call__(self,t): return self.fs[0](t)
class GrpDom(IntDom):
    """self.iszero(ctx,base,k) -> bool or z3 condition for base^k being the identity"""
    def __init__(self,contracts):
        IntDom.__init__(self,contracts); self.iszero=None; self.idents=[]; self.symvec=False
    def fresh_like(self,ctx,name,v):
        if isinstance(v,GE): return GE({(name,):1},v.b)
        if isinstance(v,tuple) and v in self.idents: return GE({(name,):1})
        if isinstance(v,(SymVec,VecVal)) and self.symvec: return SymVec({(name+'.len',):1},None)
        return IntDom.fresh_like(self,ctx,name,v)
    def vec_push(self,ctx,v,x):
        if not isinstance(v,SymVec): raise Unsupported('push')
        return SymVec(v.n,v.func,v.extra+(x,))
    def sym_find(self,ctx,it,clo):
        v=it[1]
        if v.func is None or v.extra: raise Unsupported('unknown vector')
        if ctx.decide(2,'find')==0:
            t=self.fresh('t'); self.assume(z3.And(z3.Int(t)>=0,z3.Int(t)<self.z(v.n)))
            x=v.func({(t,):1}); r=ctx.call_closure(clo,[Ref(Cell(Ref(Cell(x))))])
            if isinstance(r,IB): self.assume(r.t)
            elif r is not True: raise Infeasible()
            return Some(Ref(Cell(x)))
        # not found: no index satisfies the condition, in particular none that makes a compared exponent difference vanish
        t=self.fresh('t'); ctx.eqs=[]; x=v.func({(t,):1}); r=ctx.call_closure(clo,[Ref(Cell(Ref(Cell(x))))])
        for d in ctx.eqs:
            c=d.get((t,))
            if c in(1,-1) and all(t not in m or m==(t,) for m in d):
                e=pscale({m:k for m,k in d.items() if m!=(t,)},-c); E=self.z(e)
                # at this index the compared elements are equal; the closure must report it
                y=ctx.call_closure(clo,[Ref(Cell(Ref(Cell(v.func(e)))))])
                if y is True: self.assume(z3.Not(z3.And(E>=0,E<self.z(v.n))))
                elif isinstance(y,IB): self.assume(z3.Or(z3.Not(y.t),E<0,E>=self.z(v.n)))
        return NONE
def ld(ctx,v):
    while isinstance(v,Ref): v=ctx.load(v)
    return v
def el(ctx,v):
    v=ld(ctx,v)
    if isinstance(v,GE): return v
    if isinstance(v,tuple) and v in ctx.dom.idents: return GE({},None)
    raise Unsupported('group element expected, got %r'%(type(v).__name__,))
def gop(x,y,s=1):
    if not x.k and x.b is None: return GE(pscale(y.k,s),y.b)
    if not y.k and y.b is None: return x
    if x.b!=y.b: raise Unsupported('elements of different groups')
    return GE(padd(x.k,y.k,s),x.b)
def gmul(ctx,x,n): return GE(pmul(x.k,pol(ld(ctx,n))),x.b)
def cw(ctx,t):
    if t is True: return 0xFFFFFFFF
    if t is False: return 0
    return CW(t)
def gz(ctx,x):
    if x.b is None or not x.k: return True
    return ctx.dom.iszero(ctx,x.b,x.k)
def geq(ctx,x,y):
    if x.k and y.k and x.b!=y.b and x.b is not None and y.b is not None: return z3.Bool('equal[%r,%r]'%tuple(sorted((x,y),key=repr)))
    r=gop(x,y,-1)
    if hasattr(ctx,'eqs') and r.k: ctx.eqs.append(r.k)
    return gz(ctx,r)
def grp_contracts():
    C={}
    def st(ctx,r,v): ctx.store(r,v); return ()
    for f in('add','sub'):
        C[CV+f]=lambda ctx,a,s=1 if f=='add' else -1: gop(el(ctx,a[1]),el(ctx,a[2]),s)
    C[CV+'mul_big']=lambda ctx,a: gmul(ctx,el(ctx,a[1]),a[2])
    C[CV+'mul_small']=lambda ctx,a: gmul(ctx,el(ctx,a[1]),a[2])
    C[CV+'double']=lambda ctx,a: GE(pscale(el(ctx,a[1]).k,2),el(ctx,a[1]).b)
    C[CV+'double_iter']=lambda ctx,a: GE(pscale(el(ctx,a[1]).k,1<<a[2]),el(ctx,a[1]).b) if isinstance(a[2],int) else NotImplemented
    C[PT+'equals']=lambda ctx,a: cw(ctx,geq(ctx,el(ctx,a[0]),el(ctx,a[1])))
    C[PT+'isinfinity']=lambda ctx,a: cw(ctx,gz(ctx,el(ctx,a[0])))
    for n in('<ecFESTA::Point as Neg>::neg','<ecFESTA::&Point as Neg>::neg'):
        C[n]=lambda ctx,a: GE(pscale(el(ctx,a[0]).k,-1),el(ctx,a[0]).b)
    C[FP2+'set_mul']=lambda ctx,a: st(ctx,a[0],gop(el(ctx,a[0]),el(ctx,a[1])))
    C[FP2+'set_square']=lambda ctx,a: st(ctx,a[0],GE(pscale(el(ctx,a[0]).k,2),el(ctx,a[0]).b))
    C[FP2+'square']=lambda ctx,a: GE(pscale(el(ctx,a[0]).k,2),el(ctx,a[0]).b)
    C[FP2+'pow_small']=lambda ctx,a: gmul(ctx,el(ctx,a[0]),a[1])
    C[FP2+'pow_big']=lambda ctx,a: gmul(ctx,el(ctx,a[0]),a[1])
    C[FP2+'invert']=lambda ctx,a: GE(pscale(el(ctx,a[0]).k,-1),el(ctx,a[0]).b)
    C[FP2+'set_invert']=lambda ctx,a: st(ctx,a[0],GE(pscale(el(ctx,a[0]).k,-1),el(ctx,a[0]).b))
    C[FP2+'set_div']=lambda ctx,a: st(ctx,a[0],gop(el(ctx,a[0]),el(ctx,a[1]),-1))
    C[FP2+'equals']=lambda ctx,a: cw(ctx,geq(ctx,el(ctx,a[0]),el(ctx,a[1])))
    return C
def idents(env):
    ctx=Ctx(env.crate,IntDom({})); return [ctx.const_path(FP2+'ONE'),ctx.const_path(PT+'INFINITY')]
def sym_factors(d,k,emin=1):
    """k distinct primes and exponents; valuation bookkeeping for monomials in them"""
    ls=[d.var('l%d'%i,lo=2,hi=1<<32) for i in range(k)]; es=[d.var('e%d'%i,lo=emin,hi=1<<32) for i in range(k)]
    for i in range(k):
        for j in range(i): d.assume(z3.Int('l%d'%i)!=z3.Int('l%d'%j))
    d.factors=k
    return tuple(zip(ls,es))
def powvars(d):
    """variable -> (prime index, z3 exponent) for the l_i and the powers of them that were formed"""
    out={}
    for i in range(d.factors): out['l%d'%i]=(i,z3.IntVal(1))
    for key,name in d.pw.items():
        if key[0]!='p': continue
        if len(key[1])==1 and key[1][0][1]==1 and len(key[1][0][0])==1 and key[1][0][0][0] in out and key[1][0][0][0][0]=='l':
            out[name]=(out[key[1][0][0][0]][0],d.z(dict(key[2])))
    return out
def valuations(d,p):
    """z3 valuations of a monomial at every prime, or None"""
    if len(p)!=1: return None
    (m,c),=p.items()
    if c not in(1,-1): return None
    pv=powvars(d); v=[z3.IntVal(0)]*d.factors
    for x in m:
        if x not in pv: return None
        i,e=pv[x]; v[i]=v[i]+e
    return v

def order_obs(p):
    obs=[]
    for name,mk in(('point_has_factored_order',0),('has_factored_order',1)):
        def run(env,res,name=name,mk=mk,k=None):
            fn=env.fn(SS+name); out=[]; ids=idents(env)
            def dom():
                d=GrpDom(grp_contracts()); d.idents=ids
                def iszero(ctx,b,kk):
                    v=valuations(d,kk)
                    if v is None: raise Unsupported('multiple that is not a product of the given primes')
                    return z3.And(*[z3.Int('f%d'%i)<=v[i] for i in range(k)])
                d.iszero=iszero; return d
            def args(ctx):
                d=ctx.dom; fs=sym_factors(d,k)
                # the order of the element is prod l_i^f_i with f_i <= e_i
                for i in range(k): d.assume(z3.And(z3.Int('f%d'%i)>=0,z3.Int('f%d'%i)<=z3.Int('e%d'%i)))
                fl=Ref(Cell(fs),(),(0,k))
                return [GE({():1}),fl] if mk else [Ref(Cell(Opaque('curve'))),Ref(Cell(GE({():1}))),fl]
            for o in explore(env.crate,dom,fn,args):
                res.paths+=1; note(res,o.ctx); d=o.ctx.dom
                if o.kind!='return': out.append(('no panic',None if d.feasible() else True,o.msg)); continue
                r=o.ret; r=z3.BoolVal(r) if isinstance(r,bool) else r.t
                full=z3.And(*[z3.Int('f%d'%i)==z3.Int('e%d'%i) for i in range(k)])
                ok=d.proves(r==full); w=None
                if not ok:
                    s=d.solver; s.push(); s.add(r!=full)
                    if s.check()==z3.sat: w=str(s.model())[:200]; 
                    s.pop()
                out.append(('answer is true exactly for elements of order D',True if ok else False if w else None,w or ''))
            return out
        for k in list(range(1,20))+[24,33,40,46,47]:
            obs.append(Ob(p,'%s, %d primes'%(name,k),SS+name,'int',lambda env,res,r=run,k=k:r(env,res,k=k),search=['ss.order' if not mk else 'ss.forder'],bound='%d prime factors (all primes, exponents and elements killed by D)'%k))
    return obs

FACS=['D1','D2','DA1','DA2','2^634']
def const(env,name):
    ctx=Ctx(env.crate,IntDom({})); v=ctx.const_path('fields::FpFESTAExt::'+name)
    return ld(ctx,v)
def gen_contracts():
    C=grp_contracts(); base=dict(C)
    def hfo(ctx,a):
        x=el(ctx,a[1]); fs=tuple(ctx.load(a[2])); t=z3.Bool('order[%r]'%(x,)+str(fs)); ctx.tests.append(('order',x,fs,t)); return IB(t)
    C[SS+'point_has_factored_order']=hfo
    def fhfo(ctx,a):
        x=el(ctx,a[0]); fs=tuple(ctx.load(a[1])); t=z3.Bool('forder[%r]'%(x,)+str(fs)); ctx.tests.append(('forder',x,fs,t)); return IB(t)
    C[SS+'has_factored_order']=fhfo
    def weil(ctx,a):
        x,y,n=el(ctx,a[1]),el(ctx,a[2]),pol(ld(ctx,a[3])); ctx.weil.append((x,y,n)); return GE({():1},'weil%d'%(len(ctx.weil)-1))
    C['pairing::weil_pairing']=weil
    def clr(ctx,a):
        k=ld(ctx,a[2]); e=a[3]
        if not(isinstance(k,int) and isinstance(e,int)): raise Unsupported('symbolic cofactor')
        if k%(1<<e): raise Unproved('cofactor clearing with a cofactor not divisible by 2^%d'%e)
        return gmul(ctx,el(ctx,a[1]),k)
    C[SS+'clear_cofactor']=clr
    C[CV+'iter']=lambda ctx,a: Opaque('points of the curve')
    def nxt(ctx,a):
        if ctx.decide(2,'iterator'): return NONE
        ctx.npt+=1; return Some(GE({():1},'R%d'%ctx.npt))
    C['<ecFESTA::CurveIter as Iterator>::next']=nxt
    def rp(ctx,a): ctx.npt+=1; return GE({():1},'R%d'%ctx.npt)
    C[CV+'rand_point']=rp
    return C
def gen_obs(p):
    obs=[]
    def run(env,res,fname,fac,basis):
        fn=env.fn(SS+fname); out=[]; ids=idents(env); D=1
        even=const(env,'L_POWER')
        if fac=='2^634': fs=((2,even),); even=0
        else: fs=tuple(tuple(x) for x in const(env,fac+'_FACTORED'))
        for l,e in fs: D*=l**e
        C=gen_contracts()
        if basis:
            def g(ctx,a):
                f=tuple(ctx.load(a[1]))
                if f!=fs: raise Unproved('first basis point for another order')
                # contract of the generator: infinity, or a cofactor multiple of a curve point that passed the order test
                if ctx.decide(2,'generator'): return ids[1]
                ctx.npt+=1; x=GE(pconst((P+1)//D),'R%d'%ctx.npt); t=z3.Bool('order[%r]'%(x,)+str(f)); ctx.tests.append(('order',x,f,t)); ctx.dom.assume(t); return x
            C[SS+'generate_point_order_factored_D']=g
        def dom():
            d=GrpDom(dict(C)); d.idents=ids
            d.iszero=lambda ctx,b,k: (lambda t:(ctx.zs.append((b,dict(k),t)),t)[1])(z3.Bool('zero[%s,%s]'%(b,sorted(k.items()))))
            return d
        def args(ctx):
            ctx.tests=[]; ctx.zs=[]; ctx.weil=[]; ctx.npt=0
            return [Ref(Cell(Opaque('curve'))),Ref(Cell(fs),(),(0,len(fs))),even]
        def tmpl(ctx,vals,bb):
            return [Cand('%s>=0'%(k,),[k],lambda u:u>=0) for k in vals if not isinstance(vals[k],(GE,tuple))]+[Cand('%s<=1000'%(k,),[k],lambda u:u<=1000) for k in vals if not isinstance(vals[k],(GE,tuple))]
        from loopinv import headers
        def want(f):
            # the loops over the candidate points, not those over the list of factors
            return {b for b in headers(f)}
        # loops over concrete sequences are unrolled
        L=LoopProof(env,fn,dom,args,tmpl,want=want)
        for o in L.run():
            res.paths+=1; note(res,o.ctx); ctx=o.ctx; d=ctx.dom
            if o.kind!='return': out.append(('no panic',None if d.feasible() else True,o.msg)); continue
            pts=list(o.ret) if basis else [o.ret]
            if all(q in ids for q in pts if isinstance(q,tuple)) and all(isinstance(q,tuple) for q in pts): continue
            if basis and isinstance(pts[0],tuple) and pts[0] in ids and not isinstance(pts[1],tuple): pass
            true=lambda t:d.proves(t)
            for i,q in enumerate(pts):
                if not isinstance(q,GE) : 
                    # the first point is the generator's answer; a basis with the point at infinity never passes the pairing test
                    if basis and i==0: continue
                    out.append(('returns a generated point',False,'')); continue
                out.append(('(p+1)/D multiple of a curve point',q.k==pconst((P+1)//D) and q.b is not None and q.b[0]=='R','%r'%(q,)))
                out.append(('passed the order test',any(k=='order' and x.same(q) and f==fs and true(t) for k,x,f,t in ctx.tests),''))
            if basis:
                okp=False
                for k,x,f,t in ctx.tests:
                    if k!='forder' or f!=fs or not true(t) or not x.b.startswith('weil'): continue
                    u,v,n=ctx.weil[int(x.b[4:])]
                    same2=lambda a,b: (isinstance(b,tuple) and a.b is None) or (isinstance(b,GE) and a.same(b))
                    if n==pconst(D) and (same2(u,pts[0]) and same2(v,pts[1]) or same2(u,pts[1]) and same2(v,pts[0])): okp=True
                out.append(('the Weil pairing of the two points passed the order test',okp,''))
        out.append(('every loop was cut or unrolled',True,''))
        return out
    for fac in FACS:
        for f in('generate_point_order_factored_D','generate_random_point_order_factored_D'):
            obs.append(Ob(p,'%s, %s'%(f,fac),SS+f,'int+loop invariants',lambda env,res,f=f,fac=fac:run(env,res,f,fac,False),search=['ss.gen'],bound='order %s of the scheme'%fac,weight=2))
        obs.append(Ob(p,'torsion_basis, %s'%fac,SS+'torsion_basis','int+loop invariants',lambda env,res,fac=fac:run(env,res,'torsion_basis',fac,True),search=['ss.gen'],bound='order %s of the scheme'%fac,weight=2))
    return obs

def c12(crate):
    import prop_ord
    return prop_ord.order_all_obs('C12')+order_obs('C12')+gen_obs('C12')

# ------------------------------------------------------------------------------------------------ discrete logarithms
class Lin:
    """exponent of a group element = f(value of an integer leaf)"""
    def __init__(self,name,g,i,f): self.name=name; self.g=g; self.i=i; self.f=f
    def cond(self,ctx,vals):
        x=el(ctx,vals[self.g]); return ctx.dom.z(x.k)==self.f(ctx.dom.z(vals[self.i]))
    def holds(self,ctx,vals,init): return ctx.dom.proves(self.cond(ctx,vals))
    def assume(self,ctx,vals): ctx.dom.assume(self.cond(ctx,vals))
class VecLen:
    def __init__(self,name,v,i): self.name=name; self.v=v; self.i=i
    def cond(self,ctx,vals):
        v=vals[self.v]; return ctx.dom.z(v.length() if isinstance(v,SymVec) else len(v.items))==ctx.dom.z(vals[self.i])
    def holds(self,ctx,vals,init): return ctx.dom.proves(self.cond(ctx,vals))
    def assume(self,ctx,vals): ctx.dom.assume(self.cond(ctx,vals))
class VecTmpl:
    """item t of the vector is template(t)"""
    def __init__(self,name,v,f): self.name=name; self.v=v; self.f=f
    def match(self,ctx,x,t):
        def m(a,b):
            if isinstance(b,tuple) and not (b in ctx.dom.idents): return isinstance(a,tuple) and len(a)==len(b) and all(m(p,q) for p,q in zip(a,b))
            if isinstance(b,GE): 
                try: a=el(ctx,a)
                except Unsupported: return False
                return ctx.dom.proves(ctx.dom.z(padd(a.k,b.k,-1))==0) and (a.b==b.b or a.b is None)
            if not isinstance(a,(int,IV)) or isinstance(a,bool): return False
            return ctx.dom.proves(ctx.dom.z(padd(pol(a),pol(b),-1))==0)
        return m(x,self.f(t))
    def holds(self,ctx,vals,init):
        v=vals[self.v]
        if isinstance(v,VecVal): return all(self.match(ctx,x,pconst(i) if i else {}) for i,x in enumerate(v.items))
        return v.func is not None and self.f in v.func.fs and all(self.match(ctx,x,padd(v.n,pconst(i)) if i else v.n) for i,x in enumerate(v.extra))
    def assume(self,ctx,vals): v=vals[self.v]; v.func=Items((v.func.fs if v.func else ())+(self.f,))
TABLE=lambda t:(iv(t),GE(t))
TABLE2=lambda t:GE(t)
def dl_contracts():
    C=grp_contracts()
    def sq(ctx,a):
        d=ctx.dom; n=d.z(a[0]); s=d.fresh('sqrt'); S=z3.Int(s)
        d.assume(z3.And(S>=0,S*S<=n,n<(S+1)*(S+1),S<65536)); ctx.m=padd({(s,):1},pconst(1))
        # consequences of S^2<=n<(S+1)^2 and n>=2
        for f in(S>=1,S+1<=n):
            if d.proves(f): d.assume(f)
        return IV({(s,):1})
    C[DL+'sqrt_floor']=sq
    return C
def c11(crate):
    obs=[]; p='C11'
    def bs(env,res):
        fn=env.fn(DL+'bsgs'); out=[]; ids=idents(env)
        def dom():
            d=GrpDom(dl_contracts()); d.idents=ids; d.symvec=True
            def iszero(ctx,b,k):
                K=d.z(k); N=z3.Int('n')
                if d.proves(K<N) and d.proves(K>-N): return K==0
                q=d.fresh('w'); return K==N*z3.Int(q)
            d.iszero=iszero; return d
        def args(ctx):
            d=ctx.dom; d.var('n',lo=2,hi=1<<32); X=d.var('X',lo=0); d.assume(z3.Int('X')<z3.Int('n')); ctx.m=None
            return [Ref(Cell(GE({('X',):1}))),Ref(Cell(GE(pconst(1)))),IV({('n',):1})]
        def tmpl(ctx,vals,bb):
            c=[]; gs=[k for k,v in vals.items() if isinstance(v,GE) or isinstance(v,tuple)]; vs=[k for k,v in vals.items() if isinstance(v,(VecVal,SymVec))]; ints=[k for k in vals if k not in gs and k not in vs]
            X=z3.Int('X'); d=ctx.dom
            for i in ints:
                c.append(Cand('%s>=0'%(i,),[i],lambda u:u>=0))
                if ctx.m is not None:
                    M=d.z(ctx.m)
                    c.append(Cand('%s<=m'%(i,),[i],lambda u,M=M:u<=M)); c.append(Cand('X>=m*%s'%(i,),[i],lambda u,M=M:X>=M*u))
                for g in gs:
                    c.append(Lin('%s=%s'%(g,i),g,i,lambda u:u))
                    if ctx.m is not None: c.append(Lin('%s=X-m*%s'%(g,i),g,i,lambda u,M=M:X-M*u)); c.append(Lin('%s=m*%s'%(g,i),g,i,lambda u,M=M:M*u))
                for v in vs: c.append(VecLen('len %s=%s'%(v,i),v,i))
            for v in vs: c.append(VecTmpl('table %s'%(v,),v,TABLE)); c.append(VecTmpl('table2 %s'%(v,),v,TABLE2))
            return c
        L=LoopProof(env,fn,dom,args,tmpl)
        for o in L.run():
            res.paths+=1; note(res,o.ctx); d=o.ctx.dom
            if o.kind!='return': out.append(('no panic',True if not d.feasible() else None,o.msg)); continue
            out.append(('result = X: in range and alpha^result = beta',d.proves(d.z(o.ret)==z3.Int('X')) or (None if d.feasible() else True),str(L.invariants)))
        res.vcs+=L.vcs
        return out
    obs.append(Ob(p,'bsgs',DL+'bsgs','int+loop invariants',bs,search=['dl.bsgs'],fallback=True,weight=5))
    return obs
_c11=c11
def c11(crate):
    import prop_ph
    return _c11(crate)+[prop_ph.ph_power_ob('C11')]+prop_ph.ph_obs('C11')+prop_ph.bidlp_obs('C11')
