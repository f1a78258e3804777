"""compute_crt for any number of moduli.  m_t = l_t^e_t, t<n; products over ranges are formal as in prop_ord.py, with the
additional kind ('mx',i): the range with the index i left out.  The accumulator is described by its residues: RV(lo,hi) is
congruent to r_t modulo m_t for lo<=t<hi and to 0 for the other t.  xgcd_big is used by its contract (C10)."""
import z3
from spec import *
from obl import *
from intdom import *
from loopinv import *
from prop_grp import ld
from prop_ord import *
import prop_ord
DL='discrete_log::'
class RI(Sym):
    __slots__=('t',)
    def __init__(self,t): self.t=t
class Inv(Sym):
    """inverse of prod_{j!=i} m_j modulo m_i"""
    __slots__=('i',)
    def __init__(self,i): self.i=i
class PV(Sym):
    __slots__=('r','inv','ts')
    def __init__(self,r=None,inv=None,ts=()): self.r=r; self.inv=inv; self.ts=ts
class RV(Sym):
    __slots__=('lo','hi','red','by')
    def __init__(self,lo,hi,red): self.lo=lo; self.hi=hi; self.red=red; self.by=None
    def same(self,o): return self is o or isinstance(o,RV) and (self.lo,self.hi,self.red)==(o.lo,o.hi,o.red) and self.lo is not None
def mx(i): return ('mx',tuple(sorted(i.items())))
class CrtDom(OrdDom):
    def kinds(self):
        out=['m']
        for t in self.cur:
            if mx(t) not in out: out.append(mx(t))
        return out
    def norm(self,ts,hyp=()):
        ts=list(ts); ks={k for k,_,_ in ts if isinstance(k,tuple)}
        if len(ks)==1:
            k=next(iter(ks)); i=dict(k[1]); out=[]
            for kk,a,b in ts:
                if kk=='m' and self.prv(z3.Or(self.z(i)<self.z(a),self.z(i)>=self.z(b)),hyp): kk=k
                out.append((kk,a,b))
            ts=out
        ts=OrdDom.norm(self,ts,hyp)
        out=[]
        for kk,a,b in ts:
            if isinstance(kk,tuple) and self.eq(b,dict(kk[1]),hyp): b=padd(b,pconst(1))
            out.append((kk,a,b))
        return out
    def eqprod(self,x,y,hyp=()):
        e=OrdDom.eqprod(self,x,y,hyp)
        if e: return True
        # an excluded index makes the factor at that index trivial
        ks={k for k,_,_ in list(x)+list(y) if isinstance(k,tuple)}
        if len(ks)!=1: return False
        k=next(iter(ks)); i=dict(k[1]); i1=padd(i,pconst(1)); z=[]
        for ts in(x,y):
            z.append([(k,a,b) if kk==k or self.prv(z3.Or(self.z(i)<self.z(a),self.z(i)>=self.z(b)),hyp) and kk=='m' else (kk,a,b) for kk,a,b in ts])
        return OrdDom.eqprod(self,self.drop(z[0],hyp),self.drop(z[1],hyp),hyp)
    def drop(self,ts,hyp):
        out=[]
        for kk,a,b in self.norm(ts,hyp):
            if isinstance(kk,tuple) and self.eq(a,dict(kk[1]),hyp) and self.eq(b,padd(a,pconst(1)),hyp): continue
            out.append((kk,a,b))
        return out
    def bigpow(self,ctx,x,e):
        if isinstance(x,LI) and isinstance(e,EI) and e.d==0 and self.eq(x.t,e.t): return RP((('m',x.t,padd(x.t,pconst(1))),))
        raise Unsupported('power')
    def fresh_like(self,ctx,name,v):
        if isinstance(v,RV): return RV(None,None,None)
        return OrdDom.fresh_like(self,ctx,name,v)
    def pv(self,ctx,v):
        if isinstance(v,PV): return v
        if isinstance(v,RI): return PV(r=v.t)
        if isinstance(v,Inv): return PV(inv=v.i)
        return PV(ts=factors(ctx,v))
    def unit(self,v):
        """v = r_i * (inverse of c modulo m_i) * c with c the product of the other moduli -> i"""
        if v.r is None or v.inv is None: return None
        if not self.eq(v.r,v.inv): return None
        return v.r if self.eqprod(v.ts,((mx(v.inv),{},{('n',):1}),)) else None
    def bigop(self,ctx,op,x,y):
        if any(isinstance(v,(RI,Inv,PV,RV)) for v in(x,y)):
            if op=='mul':
                if isinstance(x,RV) or isinstance(y,RV): raise Unsupported('product with the accumulator')
                a,b=self.pv(ctx,x),self.pv(ctx,y)
                if a.r is not None and b.r is not None or a.inv is not None and b.inv is not None: raise Unsupported('product')
                return PV(a.r if a.r is not None else b.r,a.inv if a.inv is not None else b.inv,tuple(self.norm(a.ts+b.ts)))
            if op=='add':
                if isinstance(y,RV): x,y=y,x
                if not isinstance(x,RV) or x.lo is None or not isinstance(y,PV): raise Unsupported('sum')
                i=self.unit(y)
                if i is None: raise Unsupported('summand is not r_i * inverse * cofactor')
                if self.eq(i,x.hi): return RV(x.lo,padd(x.hi,pconst(1)),False)
                if self.eq(padd(i,pconst(1)),x.lo): return RV(i,x.hi,False)
            raise Unsupported('sum')
        return OrdDom.bigop(self,ctx,op,x,y)
    def bigdiv(self,ctx,op,x,y,unsigned):
        full=(('m',{},{('n',):1}),)
        if isinstance(x,RV) and isinstance(y,RP) and op=='rem' and y.ts is not None and x.lo is not None and self.eqprod(y.ts,full): return RV(x.lo,x.hi,True)
        if isinstance(x,PV) and isinstance(y,RP) and op=='rem' and y.ts is not None and self.eqprod(y.ts,full): return x        # same residues
        raise Unsupported('division')
    def stdhook(self,ctx,c,a):
        if c.startswith('<num_bigint::BigUint as std::convert::From<') and c.endswith('::from') and ld(ctx,a[0])==0 and isinstance(ld(ctx,a[0]),int): return RV({},{},True)
        return OrdDom.stdhook(self,ctx,c,a)
    def more_templates(self,ctx,vals,bb,ints):
        c=[]
        for x,i in enumerate(ints):
            for j in ints[:x]:
                D=self.z(padd(pol(vals[i]),pol(vals[j]),-1)); c.append(Cand('%s-%s const'%(i,j),[i,j],lambda u,w,D=D:u-w==D))
        for v in vals:
            if isinstance(vals[v],RV):
                for i in ints: c.append(RvIs(bb,v,i,pol(vals[i])))
        return c
class RvIs(Describe):
    def __init__(self,bb,v,i,i0): self.bb=bb; self.v=v; self.i=i; self.i0=i0; self.name='%s: residues [%s..%s)'%(v,i0,i)
    def holds(self,ctx,vals,init):
        x=vals[self.v]; d=ctx.dom
        if init: return isinstance(x,RV) and x.lo is not None and x.red and d.eq(x.lo,x.hi) and d.eq(x.lo,self.i0)
        if not self.active(ctx,self.bb): return True
        return isinstance(x,RV) and x.red and x.lo is not None and d.eq(x.lo,self.i0) and d.eq(x.hi,pol(vals[self.i]))
    def put(self,ctx,v,vals): v.lo=self.i0; v.hi=pol(vals[self.i]); v.red=True
    def assume(self,ctx,vals):
        v=vals[self.v]
        if v.by is None: self.put(ctx,v,vals); v.by=self.name
def crt_all_obs(p):
    def xg(ctx,a):
        d=ctx.dom; x,y=ld(ctx,a[0]),ld(ctx,a[1])
        if not isinstance(x,RP) or not isinstance(y,RP) or x.ts is None or y.ts is None: raise Unproved('xgcd_big: unknown operands')
        y=d.norm(y.ts)
        if len(y)!=1 or y[0][0]!='m' or not d.eq(padd(y[0][1],pconst(1)),y[0][2]): raise Unproved('xgcd_big: modulus')
        i=y[0][1]
        # the distinct prime powers are coprime, so the product of all but the i-th is a unit modulo the i-th
        if not d.eqprod(x.ts,((mx(i),{},{('n',):1}),)): raise Unproved('xgcd_big: not the product of the other moduli')
        return Inv(i)
    def run(env,res):
        fn=env.fn(DL+'compute_crt'); out=[]; N={('n',):1}
        def args(ctx):
            d=ctx.dom; d.var('n',lo=0,hi=1<<60); ctx.measure=None
            return [Ref(Cell(Arr(N,RI))),Ref(Cell(Arr(N,lambda t:(LI(t),EI(t)))))]
        L=LoopProof(env,fn,lambda:CrtDom({DL+'xgcd_big':xg},[]),args,templates([]))
        for o in L.run():
            res.paths+=1; note(res,o.ctx); d=o.ctx.dom
            if o.kind!='return': out.append(('no panic',True if not d.feasible() else None,o.msg)); continue
            r=o.ret; ok=isinstance(r,RV) and r.red and r.lo is not None and d.eq(r.lo,{}) and d.eq(r.hi,N)
            out.append(('0 <= result < product of the moduli, congruent to every remainder',True if ok else None,str(L.invariants)[:300]))
        res.vcs+=L.vcs; return out
    return [Ob(p,'compute_crt, any number of moduli',DL+'compute_crt','int+loop invariants',run,search=['dl.crt'],timeout=45,fallback=True)]
