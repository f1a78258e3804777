"""Order tests for a factored order of any length.  The list (l_t,e_t), t<n, is a symbolic sequence; products over ranges
of it are kept as formal products

    ('l',a,b) = prod_{a<=t<b} l_t        ('t',a,b) = prod_{a<=t<b} l_t^(e_t-1)

with integer end points decided by z3, and a group element is k*g with k such a product.  The recursive helper is verified
against its contract (all entries of [lower,upper) become the co-factor multiples, nothing else is written), used by the
callers and, for shorter ranges, by its own recursive calls; loops have inductive invariants found by loopinv.py."""
import z3,re
from spec import *
from obl import *
from intdom import *
from loopinv import *
from prop_grp import SS,FP2,EC,CV,PT,idents,ld,cw
import stdmodel
NZ=z3.Function('cofactor_multiple_nonzero',z3.IntSort(),z3.BoolSort())

class LI(Sym):
    __slots__=('t',)
    def __init__(self,t): self.t=t
class EI(Sym):
    __slots__=('t','d')
    def __init__(self,t,d=0): self.t=t; self.d=d
class RP(Sym):
    """formal product; by: the loop template that describes an arbitrary value, ts None: nothing known"""
    __slots__=('ts','by','nm')
    def __init__(self,ts,nm=None): self.ts=ts; self.by=None; self.nm=nm
    def same(self,o): return self is o or isinstance(o,RP) and self.ts is not None and self.ts==o.ts
class GO(Sym):
    """[k]g, k a formal product"""
    __slots__=('k',)
    def __init__(self,k): self.k=k
    def same(self,o): return isinstance(o,GO) and self.k==o.k
class Old(Sym):
    __slots__=('t',)
    def __init__(self,t): self.t=t
class Arr(Sym):
    """n items; base(t) overwritten by the updates (lo,hi,f), the later ones last"""
    __slots__=('n','base','ups','by','nm')
    func=None
    def __init__(self,n,base,ups=()): self.n=n; self.base=base; self.ups=tuple(ups); self.by=None
    def same(self,o): return self is o or isinstance(o,Arr) and (self.n,self.base,self.ups)==(o.n,o.base,o.ups)
def iv2(n): return pconst(n) if n else {}
def factors(ctx,v):
    if isinstance(v,LI): return (('l',v.t,padd(v.t,pconst(1))),)
    if isinstance(v,RP):
        if v.ts is None: raise Unsupported('unknown product')
        return v.ts
    if v==1 and isinstance(v,int): return ()
    raise Unsupported('not a product of the given primes')

class OrdDom(IntDom):
    timeout=2000
    def __init__(self,C,ids):
        IntDom.__init__(self,C); self.ids=ids; self.bounds=[]; self.cur=[]
    def length(self,ctx,v):
        if isinstance(v,Arr): return iv(v.n)
        raise Unsupported('length')
    # -- deciding with local hypotheses
    def prv(self,t,hyp=()):
        s=self.solver; s.push()
        for h in hyp: s.add(h)
        s.add(z3.Not(t)); r=s.check(); s.pop(); return r==z3.unsat
    def eq(self,a,b,hyp=()):
        d=padd(a,b,-1)
        if not d: return True
        if len(d)==1 and () in d: return False
        return self.prv(self.z(d)==0,hyp)
    def le(self,a,b,hyp=()): return self.prv(self.z(a)<=self.z(b),hyp)
    def norm(self,ts,hyp=()):
        ts=list(ts); ch=True
        while ch:
            ch=False
            for i,(k,a,b) in enumerate(ts):
                if self.eq(a,b,hyp): del ts[i]; ch=True; break
                for j,(k2,c,d) in enumerate(ts):
                    if i!=j and k==k2 and self.eq(b,c,hyp) and self.le(a,b,hyp) and self.le(c,d,hyp):
                        ts[i]=(k,a,d); del ts[j]; ch=True; break
                if ch: break
        return ts
    def eqprod(self,x,y,hyp=()):
        x=self.norm(x,hyp); y=self.norm(y,hyp)
        if len(x)!=len(y): return False
        for k,a,b in x:
            j=next((j for j,(k2,c,d) in enumerate(y) if k==k2 and self.eq(a,c,hyp) and self.eq(b,d,hyp)),None)
            if j is None: return False
            del y[j]
        return True
    def more_templates(self,ctx,vals,bb,ints): return []
    def kinds(self): return 'lt'
    # -- arrays
    def arr_at(self,ctx,v,i):
        """value at index i on this path"""
        for lo,hi,f in reversed(v.ups):
            c=z3.And(self.z(i)>=self.z(lo),self.z(i)<self.z(hi))
            if self.branch(ctx,IB(c),'array'): return f(i)
        if v.base is None: raise Unsupported('unknown array')
        return v.base(i)
    def arr_cases(self,v,i):
        out=[]; neg=[]
        for lo,hi,f in reversed(v.ups):
            c=z3.And(self.z(i)>=self.z(lo),self.z(i)<self.z(hi)); out.append((neg+[c],f(i))); neg=neg+[z3.Not(c)]
        out.append((neg,v.base(i) if v.base else None)); return out
    def arr_get(self,ctx,v,i): return self.arr_at(ctx,v,pol(i))
    def arr_set(self,ctx,v,i,x):
        i=pol(i); return Arr(v.n,v.base,v.ups+((i,padd(i,pconst(1)),lambda t,x=x:x),))
    def proj(self,ctx,v,i): raise Unsupported('field of %r'%(type(v).__name__,))
    # -- values
    def fresh_like(self,ctx,name,v):
        if isinstance(v,RP): return RP(None,name)
        if isinstance(v,(VecVal,Arr)): return Arr({(name+'.len',):1},None)
        return IntDom.fresh_like(self,ctx,name,v)
    def binop(self,ctx,op,ty,a,b):
        if isinstance(a,LI) and isinstance(b,LI) and op in('Eq','Ne'):        # the primes of the list are distinct
            d=padd(a.t,b.t,-1)
            if not d: return op=='Eq'
            return IB(self.z(d)==0 if op=='Eq' else self.z(d)!=0)
        if isinstance(a,EI):
            if a.d==0 and op.startswith('Sub') and b==1:
                r=EI(a.t,1); return (r,False) if op.endswith('WithOverflow') else r       # e_t >= 1
            raise Unsupported('exponent arithmetic')
        return IntDom.binop(self,ctx,op,ty,a,b)
    def cast(self,ctx,a,fr,to):
        if isinstance(a,(LI,EI)) and INT_TYPES[to][0]>=32 and (not INT_TYPES[to][1] or INT_TYPES[to][0]>32): return a
        return IntDom.cast(self,ctx,a,fr,to)
    def bigop(self,ctx,op,x,y):
        if isinstance(x,(RP,LI)) or isinstance(y,(RP,LI)):
            if op!='mul': raise Unsupported('sum of products')
            return RP(tuple(self.norm(factors(ctx,x)+factors(ctx,y))))
        return IntDom.bigop(self,ctx,op,x,y)
    def bigpow(self,ctx,x,e):
        if isinstance(x,LI) and isinstance(e,EI) and e.d==1 and self.eq(x.t,e.t): return RP((('t',x.t,padd(x.t,pconst(1))),))
        raise Unsupported('power')
    def iszero(self,ctx,x):
        """[k]g = O ?  Known for k = D/l_t (by definition of NZ) and used for k = D/(l_0...l_(n-1))"""
        N={('n',):1}; k=x.k; full=(('t',{},N),)
        if self.eqprod(k,full):
            z=z3.Bool('all_top_zero'); t=z3.Int('t?')
            self.assume(z3.Implies(z,z3.ForAll([t],z3.Implies(z3.And(t>=0,t<z3.Int('n')),z3.Not(NZ(t))))))
            self.assume(z3.Implies(z3.Int('n')==1,z==z3.Not(NZ(z3.IntVal(0)))))
            return z
        for kk,a,b in k:
            for t in(padd(a,pconst(1),-1),b):
                if self.eqprod(k,full+(('l',{},t),('l',padd(t,pconst(1)),N))) and self.prv(z3.And(self.z(t)>=0,self.z(t)<z3.Int('n'))):
                    return z3.Not(NZ(self.z(t)))
        raise Unsupported('multiple that is not a co-factor multiple')
    # -- library calls on symbolic sequences
    def stdhook(self,ctx,c,a):
        if not a: return NotImplemented
        m=c.rsplit('::',1)[-1] if not c.endswith('>') else c
        if c.startswith('<num_bigint::BigUint as std::convert::From<') and c.endswith('::from'):
            v=ld(ctx,a[0])
            if v==1 and isinstance(v,int): return RP(())
            return v if isinstance(v,LI) else NotImplemented
        if 'From<u32>>::from' in c and isinstance(ld(ctx,a[0]),(LI,EI)): return ld(ctx,a[0])
        v=a[0]
        if c.startswith('std::vec::from_elem::<') and isinstance(a[1],IV): return Arr(pol(a[1]),lambda t,x=v:x)
        if c.endswith('as std::iter::IntoIterator>::into_iter') and isinstance(v,tuple) and len(v)==2 and not isinstance(v[0],str):
            self.bounds+=[pol(v[0]),pol(v[1])]; return NotImplemented
        if isinstance(v,tuple) and v and v[0]=='iter:seq' and 'std::iter::Iterator>::' in c:
            if '::fold::<' in c: return self.fold(ctx,v,a[1],a[2])
            if '::product::<' in c: return self.prod(ctx,v,RP(()),lambda x,acc:self.bigop(ctx,'mul',acc,stdmodel.derefall(ctx,x)))
            if '::all::<' in c: return self.quant(ctx,v,a[1],True)
            if '::any::<' in c: return self.quant(ctx,v,a[1],False)
            if c.endswith(('::copied','::cloned')) or '::copied::<' in c or '::cloned::<' in c: return ('iter:seqv',)+v[1:]
            if re.search(r'::(enumerate|zip|map)(::<|$)',c): return NotImplemented
            raise Unsupported('iterator '+c)
        if not isinstance(v,Ref): return NotImplemented
        x=ld(ctx,v)
        if isinstance(x,tuple) and x and x[0] in('iter:seq','iter:seqv') and c.endswith('std::iter::Iterator>::next'):
            r=v
            while isinstance(ctx.load(r),Ref): r=ctx.load(r)
            o,n=self.seq_next(ctx,x); ctx.store(r,n); return o
        if isinstance(x,tuple) and x and x[0]=='iter:seq' and ('::all::<' in c or '::any::<' in c): return self.quant(ctx,x,a[1],'::all::<' in c)
        if not isinstance(x,Arr): 
            if isinstance(x,VecVal) and not x.items and c.endswith('::push'): return NotImplemented
            return NotImplemented
        if c.endswith('::len'): return iv(x.n)
        if c.endswith('::is_empty'): return ctx.binop('Eq','usize',iv(x.n),0)
        if c.endswith(('::iter','into_iter')): return ('iter:seq',x,0)
        if c.endswith(('::deref','::deref_mut','::as_slice','::as_mut_slice')): return a[0]
        if c.endswith(('::index','::index_mut')):
            r=v
            while isinstance(ctx.load(r),Ref): r=ctx.load(r)
            i=a[1]
            if isinstance(i,tuple) and len(i)==2 and c.endswith('::index') and 'Index<std::ops::Range<' in c:
                lo,hi=pol(i[0]),pol(i[1])
                if not self.branch(ctx,IB(z3.And(self.z(lo)<=self.z(hi),self.z(hi)<=self.z(x.n))),'slice'): raise Panic('slice index out of range')
                return Ref(Cell(Arr(padd(hi,lo,-1),lambda t:self.arr_at(ctx,x,padd(lo,t)))))
            if not isinstance(i,(int,IV)): raise Unsupported('range index')
            if not self.branch(ctx,IB(z3.And(self.z(i)>=0,self.z(i)<self.z(x.n))),'index'): raise Panic('index out of bounds')
            return Ref(r.cell,r.projs+(('idx',i),))
        if c.endswith('::push'):
            r=v
            while isinstance(ctx.load(r),Ref): r=ctx.load(r)
            n=padd(x.n,pconst(1)); ctx.store(r,Arr(n,x.base,x.ups+((x.n,n,lambda t,y=a[1]:y),))); return ()
        raise Unsupported('symbolic sequence: '+c[:120])
    def seq_next(self,ctx,x):
        _,s,i=x
        if set(pol(i))<={()} and pol(i).get((),0)>8 and not set(s.n)<={()}: raise Unsupported('unrolled iteration over a sequence of any length')
        if not ctx.truth(ctx.binop('Lt','usize',i,iv(s.n)),'next'): return NONE,x
        it=self.arr_at(ctx,s,pol(i)); self.cur.append(pol(i))
        return Some(Ref(Cell(it)) if x[0]=='iter:seq' else it),(x[0],s,iv(padd(pol(i),pconst(1))))
    def under(self,ctx,it,f,empty=False):
        """f applied to the item at a fresh index t, without case distinctions"""
        s=it[1]; i=pol(it[2]); t=self.fresh('t'); T={(t,):1}
        self.assume(z3.Implies(self.z(i)<self.z(s.n),z3.And(z3.Int(t)>=self.z(i),z3.Int(t)<self.z(s.n))))
        if not self.prv(self.z(i)<=self.z(s.n) if empty else self.z(i)<self.z(s.n)): raise Unsupported('possibly empty iteration')
        n0=len(ctx.decisions); x=self.arr_at(ctx,s,T)
        r=f(Ref(Cell(x)) if it[0]=='iter:seq' else x)
        if len(ctx.decisions)!=n0: raise Unsupported('case distinction under a quantifier')
        return r,t,(lambda P: z3.ForAll([z3.Int(t+'!')],z3.Implies(z3.And(z3.Int(t+'!')>=self.z(i),z3.Int(t+'!')<self.z(s.n)),z3.substitute(P,(z3.Int(t),z3.Int(t+'!'))))))
    def term(self,r):
        if isinstance(r,bool): return z3.BoolVal(r)
        if isinstance(r,IB): return r.t
        raise Unsupported('condition expected')
    def quant(self,ctx,it,clo,al):
        r,t,q=self.under(ctx,it,lambda x:ctx.call_closure(clo,[x])); P=self.term(r)
        return IB(q(P)) if al else IB(z3.Not(q(z3.Not(P))))
    def prod(self,ctx,it,init,f):
        A=('acc',{},pconst(1)); r,t,q=self.under(ctx,it,lambda x:f(x,RP((A,))),True); T={(t,):1}; i,n=pol(it[2]),it[1].n
        if not isinstance(r,RP) or r.ts is None: raise Unsupported('product')
        rest=[x for x in r.ts if x[0]!='acc']
        if len(rest)!=len(r.ts)-1: raise Unsupported('product')
        out=()
        for k,a,b in rest:
            c=padd(a,T,-1)
            if any(t in m for m in c) or not self.eq(b,padd(a,pconst(1))): raise Unsupported('product')
            out+=((k,padd(c,i),padd(c,n)),)
        return RP(tuple(self.norm(init.ts+out)))
    def fold(self,ctx,it,init,clo):
        if isinstance(init,(bool,IB)):
            b=z3.Bool(self.fresh('acc')); r,t,q=self.under(ctx,it,lambda x:ctx.call_closure(clo,[IB(b),x])); R=self.term(r)
            if not self.prv(z3.Implies(z3.Not(b),z3.Not(R))): raise Unsupported('fold that is no conjunction')
            P=z3.substitute(R,(b,z3.BoolVal(True)))
            return IB(z3.And(self.term(init),q(P)))
        if isinstance(init,RP):
            return self.prod(ctx,it,init,lambda x,acc:ctx.call_closure(clo,[acc,x]))
        raise Unsupported('fold')

# ---- candidate invariants: the arbitrary value of a leaf is described by the first remaining template
class Describe:
    first=True
    def assume(self,ctx,vals):
        v=vals[self.v]
        if getattr(v,'by',None) is None and (not isinstance(v,RP) or v.ts is None) and (not isinstance(v,Arr) or v.base is None): self.put(ctx,v,vals); v.by=self.name
    def active(self,ctx,bb): return ctx.vals[bb][self.v].by==self.name
class ProdIs(Describe):
    def __init__(self,bb,v,i,k,v0,i0): self.bb=bb; self.v=v; self.i=i; self.k=k; self.v0=v0; self.i0=i0; self.name='%s=%s%s prod_%s[%s..%s)'%(v,v0,'',k,i0,i)
    def want(self,vals): return self.v0+((self.k,self.i0,pol(vals[self.i]) if not isinstance(vals[self.i],dict) else vals[self.i]),)
    def holds(self,ctx,vals,init):
        if init: return True
        if not self.active(ctx,self.bb): return True
        x=vals[self.v]
        return isinstance(x,(RP,LI)) and ctx.dom.eqprod(factors(ctx,x),self.want(vals))
    def put(self,ctx,v,vals): v.ts=tuple(self.want(vals))
class ArrIs(Describe):
    def __init__(self,bb,v,nm,f): self.bb=bb; self.v=v; self.f=f; self.name='%s[t]=%s'%(v,nm)
    def holds(self,ctx,vals,init):
        if init: return (isinstance(vals[self.v],VecVal) and not vals[self.v].items) or isinstance(vals[self.v],Arr) and ctx.dom.eq(vals[self.v].n,{})
        if not self.active(ctx,self.bb): return True
        v=vals[self.v]; d=ctx.dom
        if not isinstance(v,Arr): return False
        t=d.fresh('t'); T={(t,):1}; inr=[z3.Int(t)>=0,z3.Int(t)<d.z(v.n)]
        for hyp,x in d.arr_cases(v,T):
            h=inr+hyp
            if d.prv(z3.BoolVal(False),h): continue
            if x is None or not same_item(d,x,self.f(T),h): return False
        return True
    def put(self,ctx,v,vals): v.base=self.f
def same_item(d,x,y,hyp):
    if isinstance(x,RP) and isinstance(y,LI) and x.ts is not None: return d.eqprod(x.ts,factors(None,y),hyp)
    if type(x)!=type(y): return False
    if isinstance(x,LI): return d.eq(x.t,y.t,hyp)
    if isinstance(x,GO): return d.eqprod(x.k,y.k,hyp)
    if isinstance(x,Old): return d.eq(x.t,y.t,hyp)
    return same(x,y)
class LenIs:
    def __init__(self,v,i,c): self.v=v; self.i=i; self.c=c; self.name='len %s=%s+%s'%(v,i,c)
    def cond(self,ctx,vals):
        v=vals[self.v]; n=v.n if isinstance(v,Arr) else iv2(len(v.items))
        i=vals[self.i]; return ctx.dom.z(n)==ctx.dom.z(i if isinstance(i,dict) else pol(i))+ctx.dom.z(self.c)
    def holds(self,ctx,vals,init): return ctx.dom.proves(self.cond(ctx,vals))
    def assume(self,ctx,vals): ctx.dom.assume(self.cond(ctx,vals))
class IntC(Cand):
    def __init__(self,name,keys,f): Cand.__init__(self,name,keys,f)
    def zz(self,ctx,vals): return [ctx.dom.z(vals[k]) for k in self.keys]
def templates(ids):
    ident=ids
    def tmpl(ctx,vals,bb):
        d=ctx.dom; c=[]
        prods=[k for k,v in vals.items() if isinstance(v,RP)]; arrs=[k for k,v in vals.items() if isinstance(v,(VecVal,Arr))]
        ints=[k for k,v in vals.items() if isinstance(v,(int,IV)) and not isinstance(v,bool)]
        for i in ints:
            i0=pol(vals[i]); I0=d.z(i0)
            c.append(Cand('%s>=start'%(i,),[i],lambda u,I0=I0:u>=I0))
            for j,b in enumerate(d.bounds+[{('n',):1}]): B=d.z(b); c.append(Cand('%s<=bound%d'%(i,j),[i],lambda u,B=B:u<=B))
            for v in arrs:
                v0=vals[v]; n0=v0.n if isinstance(v0,Arr) else {}
                c.append(LenIs(v,i,padd(n0,i0,-1)))
            for v in prods:
                if vals[v].ts is None: continue
                for k in d.kinds(): c.append(ProdIs(bb,v,i,k,vals[v].ts,i0))
        c+=d.more_templates(ctx,vals,bb,ints)
        for v in arrs:
            c.append(ArrIs(bb,v,'l_t',LI))
            for q,x in enumerate(ident): c.append(ArrIs(bb,v,'identity%d'%q,lambda t,x=x:x))
        return c
    return tmpl

# ---- contracts of the group operations
def contracts(helper,mk):
    C={}
    def go(ctx,x):
        x=ld(ctx,x)
        if isinstance(x,GO): return x
        raise Unsupported('group element expected')
    def mul(ctx,x,n): return GO(tuple(ctx.dom.norm(go(ctx,x).k+factors(ctx,ld(ctx,n)))))
    def isz(ctx,x):
        x=ld(ctx,x)
        if x in ctx.dom.ids if isinstance(x,tuple) else False: return True
        return ctx.dom.iszero(ctx,go(ctx,x))
    def eqs(ctx,a):
        x,y=ld(ctx,a[0]),ld(ctx,a[1])
        if isinstance(y,tuple): x,y=y,x
        if not(isinstance(x,tuple) and x in ctx.dom.ids): raise Unsupported('comparison')
        return cw(ctx,isz(ctx,y))
    if mk==0:
        C[CV+'mul_big']=lambda ctx,a: mul(ctx,a[1],a[2])
        C[CV+'mul_small']=lambda ctx,a: mul(ctx,a[1],a[2])
        C[PT+'isinfinity']=lambda ctx,a: cw(ctx,isz(ctx,a[0]))
        C[PT+'equals']=eqs
    else:
        C[FP2+'pow_big']=lambda ctx,a: mul(ctx,a[0],a[1])
        C[FP2+'pow_small']=lambda ctx,a: mul(ctx,a[0],a[1])
        C[FP2+'equals']=eqs
    s=1-mk
    def hc(ctx,a):
        d=ctx.dom; G=ld(ctx,a[s]); P=ld(ctx,a[s+1]); lo,hi=pol(a[s+2]),pol(a[s+3])
        if not isinstance(G,Arr) or not is_primes(d,P): raise Unproved('precondition of %s'%helper)
        if not d.prv(z3.And(d.z(lo)>=0,d.z(lo)<d.z(hi),d.z(hi)<=d.z(G.n),d.z(hi)<=d.z(P.n))): raise Unproved('precondition of %s: lower < upper <= len'%helper)
        if ctx.measure is not None and not d.prv(d.z(hi)-d.z(lo)<ctx.measure): raise Unproved('recursion of %s does not decrease'%helper)
        x=d.arr_at(ctx,G,lo)
        if not isinstance(x,GO): raise Unproved('precondition of %s: no element at the lower index'%helper)
        r=a[s]
        while isinstance(ctx.load(r),Ref): r=ctx.load(r)
        ctx.store(r,Arr(G.n,G.base,G.ups+((lo,hi,lambda t: GO(x.k+(('l',lo,t),('l',padd(t,pconst(1)),hi)))),))); return ()
    if helper: C[helper]=hc
    return C
def is_primes(d,P):
    if not isinstance(P,Arr): return False
    t=d.fresh('t'); T={(t,):1}; inr=[z3.Int(t)>=0,z3.Int(t)<d.z(P.n)]
    return all(d.prv(z3.BoolVal(False),inr+h) or x is not None and same_item(d,x,LI(T),inr+h) for h,x in d.arr_cases(P,T))
def order_all_obs(p):
    obs=[]
    for name,mk in(('point_has_factored_order',0),('has_factored_order',1)):
        H=SS+name+'::batch_cofactor_mul'
        def helper(env,res,mk=mk,H=H):
            fn=env.fn(H); out=[]; ids=idents(env)
            def dom():
                return OrdDom(contracts(H,mk),ids)
            def args(ctx):
                d=ctx.dom; d.target=None               # the recursive calls use the contract
                n=d.var('n',lo=1,hi=1<<60); lo=d.var('lower',lo=0); hi=d.var('upper')
                d.assume(z3.And(z3.Int('lower')<z3.Int('upper'),z3.Int('upper')<=z3.Int('n')))
                ctx.measure=z3.Int('upper')-z3.Int('lower'); N={('n',):1}; L={('lower',):1}
                ctx.G=Cell(Arr(N,Old,((L,padd(L,pconst(1)),lambda t:GO(())),)))
                P=Ref(Cell(Arr(N,LI)))
                return ([Ref(Cell(Opaque('curve')))] if not mk else [])+[Ref(ctx.G),P,lo,hi]
            L=LoopProof(env,fn,dom,args,templates(ids))
            for o in L.run():
                res.paths+=1; note(res,o.ctx); d=o.ctx.dom
                if o.kind!='return': out.append(('no panic',True if not d.feasible() else None,o.msg)); continue
                G=o.ctx.G.v; t=d.fresh('t'); T={(t,):1}; lo,hi={('lower',):1},{('upper',):1}
                inside=[z3.Int(t)>=z3.Int('lower'),z3.Int(t)<z3.Int('upper')]; outside=[z3.Int(t)>=0,z3.Int(t)<z3.Int('n'),z3.Or(z3.Int(t)<z3.Int('lower'),z3.Int(t)>=z3.Int('upper'))]
                for nm,rng,want in(('entries of the range are the co-factor multiples',inside,GO((('l',lo,T),('l',padd(T,pconst(1)),hi)))),('entries outside the range are unchanged',outside,Old(T))):
                    ok=True
                    for h,x in d.arr_cases(G,T):
                        if d.prv(z3.BoolVal(False),rng+h): continue
                        if x is None or not same_item(d,x,want,rng+h): ok=None
                    out.append((nm,ok,str(L.invariants)[:300]))
            res.vcs+=L.vcs; return out
        def main(env,res,name=name,mk=mk,H=H):
            fn=env.fn(SS+name); out=[]; ids=idents(env); env.fn(H)
            def dom(): return OrdDom(contracts(H,mk),ids)
            def args(ctx):
                d=ctx.dom; d.target=None; d.var('n',lo=1,hi=1<<60); ctx.measure=None
                fl=Ref(Cell(Arr({('n',):1},lambda t:(LI(t),EI(t)))))
                return [GO(()),fl] if mk else [Ref(Cell(Opaque('curve'))),Ref(Cell(GO(()))),fl]
            L=LoopProof(env,fn,dom,args,templates(ids))
            for o in L.run():
                res.paths+=1; note(res,o.ctx); d=o.ctx.dom
                if o.kind!='return': out.append(('no panic',True if not d.feasible() else None,o.msg)); continue
                t=z3.Int('t?'); full=z3.ForAll([t],z3.Implies(z3.And(t>=0,t<z3.Int('n')),NZ(t)))
                r=d.term(o.ret); out.append(('true exactly when no co-factor multiple [D/l_t] vanishes',True if d.prv(r==full) else None,str(L.invariants)[:300]))
            res.vcs+=L.vcs; return out
        obs.append(Ob(p,'%s: recursive helper, any number of primes'%name,H,'int+loop invariants+recursion',helper,search=['ss.order' if not mk else 'ss.forder'],fallback=True))
        obs.append(Ob(p,'%s, any number of primes'%name,SS+name,'int+loop invariants+recursion',main,search=['ss.order' if not mk else 'ss.forder'],fallback=True))
    return obs
