"""Pohlig-Hellman over a prime power l^e: unknown l, e and exponent X, loops cut by invariants.  Integers are polynomials in
l, the powers LP(i)=l^i and the quotients Y(i)=floor(X/l^i) for linear index expressions i; the i-th digit of X in base l
is Y(i)-l*Y(i+1).  A normal form collects the powers of l in every monomial, so equality of exponents is syntactic."""
from prop_grp import *

def pkey(p): return tuple(sorted(p.items()))
class PhDom(GrpDom):
    def __init__(self,contracts):
        GrpDom.__init__(self,contracts); self.reg={}; self.ends=[]; self.idx={}
    def name(self,kind,p):
        n='%s[%s]'%(kind,IV(p).__repr__()[3:-1]); self.reg[n]=(kind,dict(p)); return n
    def LP(self,p):
        if not p: return pconst(1)
        return {(self.name('LP',p),):1}
    def Y(self,p): return {(self.name('Y',p),):1} if p else {('X',):1}
    def noteend(self,p):
        if not any(q==p for q in self.ends): self.ends.append(p)
    def rwidx(self,p):
        """replace an index variable by the expression it is proven to be equal to"""
        for m in list(p):
            for v in m:
                if v not in self.idx: continue
                for e in self.ends+[padd(padd(E1,pconst(-1)),{(j,):1},-1) for j in list(self.idx)[:list(self.idx).index(v)]]:
                    if (v,) in e: continue
                    if self.proves(z3.Int(v)==self.z(e)): return self.rwidx(subst(p,v,e))
        return p
    def norm(self,p):
        o={}
        for m,c in p.items():
            e={}; rest=[]
            for v in m:
                r=self.reg.get(v)
                if v=='l': e=padd(e,pconst(1))
                elif r is None: rest.append(v)
                elif r[0]=='LP': e=padd(e,self.rwidx(r[1]))
                else:
                    y=self.rwidx(r[1])
                    if y==E1: rest=None; break       # Y(e)=0
                    rest.append(next(iter(self.Y(y)))[0])
            if rest is None: continue
            e=self.rwidx(e); k=e.get((),0) if all(m2==() for m2 in e) else None
            if k is not None and k>=0: rest=rest+['l']*k
            else: rest=rest+[self.name('LP',e)]
            o=padd(o,{tuple(sorted(rest)):c})
        return o
    def lexp(self,m):
        """(exponent of l, remaining variables) of a normal monomial"""
        e={}; rest=[]
        for v in m:
            r=self.reg.get(v)
            if v=='l': e=padd(e,pconst(1))
            elif r and r[0]=='LP': e=padd(e,r[1])
            else: rest.append(v)
        return e,tuple(rest)
E1={('e',):1}
class Tmpl:
    """the leaf has the value f(dom,initial value,index); one template per leaf is active at a time"""
    first=True
    def __init__(self,name,v,t,f): self.name=name; self.v=v; self.t=t; self.f=f
    def val(self,ctx,x):
        return el(ctx,x).k if isinstance(x,(GE,tuple)) else pol(x)
    def holds(self,ctx,vals,init):
        d=ctx.dom
        if init: ctx.v0[(self.v,self.name)]=self.val(ctx,vals[self.v])
        elif ctx.active.get(self.v) is not self: return True
        v0=ctx.v0[(self.v,self.name)]
        g=d.norm(padd(self.val(ctx,vals[self.v]),self.f(d,v0,pol(vals[self.t])),-1))
        return not g
    def assume(self,ctx,vals):
        d=ctx.dom
        if self.v in ctx.active0: return
        ctx.active0.add(self.v); ctx.active[self.v]=self
        x=vals[self.v]; p=self.f(d,ctx.v0[(self.v,self.name)],pol(vals[self.t]))
        if isinstance(x,GE): x.k=p
        else: x.p=p
TM=[('init*l^%s',lambda d,v0,t: pmul(v0,d.LP(t))),
    ('X mod l^%s',lambda d,v0,t: padd({('X',):1},pmul(d.LP(t),d.Y(t)),-1)),
    ('init',lambda d,v0,t: v0)]
class Activate:
    """start of a loop: forget the active templates of its leaves"""
    name='activate'
    def __init__(self,keys): self.keys=keys
    def holds(self,ctx,vals,init):
        if init:
            for k in self.keys: ctx.active.pop(k,None); ctx.active0.discard(k)
        return True
    def assume(self,ctx,vals):
        for k in self.keys: ctx.dom.idx.setdefault(next(iter(pol(vals[k])))[0],1) if isinstance(vals[k],IV) else None
def ph_contracts():
    C=grp_contracts()
    def bs(ctx,a):
        d=ctx.dom; h,g,l=d.norm(el(ctx,a[0]).k),d.norm(el(ctx,a[1]).k),pol(ld(ctx,a[2]))
        if l!={('l',):1}: raise Unsupported('bsgs for another order')
        top=d.norm(d.LP(padd(E1,pconst(-1))))
        if g!=top: raise Unsupported('bsgs base is not alpha^(l^(e-1))')
        # h = l^(e-1)*(sum of integers and quotients Y(i)); the answer is that sum modulo l
        (tm,_),=top.items(); te,_=d.lexp(tm)
        q={}
        for m,c in h.items():
            e,r=d.lexp(m); x=padd(e,te,-1)
            if any(k!=() for k in x) or x.get((),0)<0: raise Unsupported('bsgs argument outside the subgroup of order l')
            if x.get((),0)==0: q=padd(q,{r:c})
        if not q: return 0
        if len(q)==1:
            (m,c),=q.items()
            if c==1 and len(m)==1 and (m[0]=='X' or d.reg.get(m[0],('',))[0]=='Y'):
                i={} if m[0]=='X' else d.reg[m[0]][1]
                r=padd({m:1},pmul({('l',):1},d.Y(padd(i,pconst(1)))),-1); R=d.z(r); d.assume(z3.And(R>=0,R<z3.Int('l')))
                return IV(r)
        raise Unsupported('bsgs argument is not a digit of X')
    C[DL+'bsgs']=bs
    return C
def ph_power_ob(p):
    def run(env,res):
        fn=env.fn(DL+'ph_dlp_power'); out=[]; ids=idents(env)
        def dom():
            d=PhDom(ph_contracts()); d.idents=ids
            def iszero(ctx,b,k):
                k=d.norm(k)
                if not k: return True
                low=[]
                for m,c in k.items():
                    e,r=d.lexp(m)
                    if not d.proves(d.z(padd(e,E1,-1))>=0): low.append((m,e,r,c))
                if not low: return True
                if len(low)==1 and low[0][2]==() and abs(low[0][3])==1 and d.proves(d.z(padd(E1,low[0][1],-1))>=1): return False
                raise Unsupported('equality of group elements not decided: %r'%IV(k))
            d.iszero=iszero; return d
        def args(ctx):
            d=ctx.dom; ctx.v0={}; ctx.active={}; ctx.active0=set()
            d.var('l',lo=2,hi=1<<32); d.var('e',lo=1,hi=1<<32); d.var('X',lo=0)
            for q in(E1,padd(E1,pconst(-1)),{}): d.noteend(q)
            return [Ref(Cell(GE({('X',):1}))),Ref(Cell(GE(pconst(1)))),IV({('l',):1}),IV({('e',):1})]
        def tmpl(ctx,vals,bb):
            gs=[k for k,v in vals.items() if isinstance(v,(GE,tuple))]; ints=[k for k in vals if k not in gs]
            c=[Activate(list(vals))]
            ends=[]
            for i in ints:
                c.append(Cand('%s>=0'%(i,),[i],lambda u:u>=0))
                c.append(Cand('%s<=e'%(i,),[i],lambda u:u<=z3.Int('e'))); c.append(Cand('%s<=e-1'%(i,),[i],lambda u:u<=z3.Int('e')-1))
                for j in sorted(ctx.dom.idx):
                    if j.split(':')[0]!=str(bb): c.append(Cand('%s<=e-1-%s'%(i,j),[i],lambda u,j=j:u<=z3.Int('e')-1-z3.Int(j)))
            idx=[t for t in ints if len(t)>1] or ints
            for t in idx:
                for v in gs+ints:
                    if v in idx: continue
                    for nm,f in TM: c.append(Tmpl(('%s='+nm)%((v,t) if '%' in nm else (v,)),v,t,f))
            return c
        L=LoopProof(env,fn,dom,args,tmpl)
        for o in L.run():
            res.paths+=1; note(res,o.ctx); d=o.ctx.dom
            if o.kind!='return': out.append(('no panic',True if not d.feasible() else None,o.msg)); continue
            g=d.norm(padd(pol(o.ret),{('X',):1},-1))
            out.append(('result = X',True if not g else (None if d.feasible() else True),'%r %s'%(IV(g),L.invariants)))
        res.vcs+=L.vcs
        return out
    return Ob(p,'ph_dlp_power',DL+'ph_dlp_power','int+loop invariants',run,search=['dl.ph'],fallback=True,weight=5)

# ------------------------------------------------------------------------------------------------ composite orders
def pprod(f,d=None):
    r=pconst(1)
    for l,e in f:
        for _ in range(e): r=pmul(r,pol(l))
    return r
def lists():
    """(label, maker(dom) -> ((l,e),...)) : the orders of the scheme, and unknown primes with small exponents"""
    out=[]
    for es in((1,),(3,),(1,2),(2,1,1),(1,3,2,1),(1,1,1,1,1,1),(2,1,2,1,2)):
        def mk(d,env,es=es):
            ls=[d.var('l%d'%i,lo=2,hi=1<<32) for i in range(len(es))]
            for i in range(len(es)):
                for j in range(i): d.assume(z3.Int('l%d'%i)!=z3.Int('l%d'%j))
            return tuple(zip(ls,es))
        out.append(('unknown primes with exponents %s'%','.join(map(str,es)),mk))
    for fac in FACS:
        def mk(d,env,fac=fac):
            if fac=='2^634': return ((2,const(env,'L_POWER')),)
            return tuple(tuple(x) for x in const(env,fac+'_FACTORED'))
        out.append((fac,mk))
    return out
def flist(ctx,v):
    return tuple(tuple(x) for x in ctx.load(v))
def ph_obs(p):
    obs=[]
    def run(env,res,mk):
        fn=env.fn(DL+'ph_dlp'); out=[]; ids=idents(env)
        def con():
            C=grp_contracts()
            def php(ctx,a):
                d=ctx.dom; kb,ka=el(ctx,a[0]).k,el(ctx,a[1]).k; l,e=ld(ctx,a[2]),ld(ctx,a[3])
                if not isinstance(e,int): raise Unsupported('symbolic exponent')
                M=pprod([(l,e)])
                if pmul(ka,M)!=ctx.D: raise Unproved('base handed to ph_dlp_power does not have order l^e')
                if kb!=pmul(ka,{('X',):1}): raise Unproved('target is not base^X')
                r=d.fresh('x'); d.assume(z3.And(z3.Int(r)>=0,z3.Int(r)<d.z(M))); ctx.res[r]=M
                return IV({(r,):1})
            C[DL+'ph_dlp_power']=php
            def crt(ctx,a):
                d=ctx.dom; rem=ld(ctx,a[0]).items; f=flist(ctx,a[1])
                r=d.fresh('crt'); d.assume(z3.And(z3.Int(r)>=0,z3.Int(r)<d.z(pprod(f))))
                if len(rem)<len(f): raise Unproved('too few remainders')
                ctx.crt[r]=(tuple(rem),f); return IV({(r,):1})
            C[DL+'compute_crt']=crt
            return C
        def dom():
            d=GrpDom(con()); d.idents=ids; return d
        def args(ctx):
            d=ctx.dom; f=mk(d,env); ctx.f=f; ctx.D=pprod(f); ctx.res={}; ctx.crt={}
            return [Ref(Cell(GE({('X',):1}))),Ref(Cell(GE(pconst(1)))),Ref(Cell(f),(),(0,len(f)))]
        for o in explore(env.crate,dom,fn,args):
            res.paths+=1; note(res,o.ctx); d=o.ctx.dom; ctx=o.ctx
            if o.kind!='return': out.append(('no panic',True if not d.feasible() else None,o.msg)); continue
            r=pol(o.ret); v=next(iter(r)) if len(r)==1 else ()
            if r!={v:1} or len(v)!=1 or v[0] not in ctx.crt: out.append(('result comes from the CRT of the partial logarithms',None,repr(o.ret))); continue
            rem,f=ctx.crt[v[0]]
            out.append(('CRT over the whole order',True if pprod(f)==ctx.D else None,''))
            out.append(('every remainder is X modulo its prime power',True if all(isinstance(x,IV) and len(x.p)==1 and x.p=={next(iter(x.p)):1} and len(next(iter(x.p)))==1 and ctx.res.get(next(iter(x.p))[0])==pprod([le]) for x,le in zip(rem,f)) else None,''))
        return out
    for lab,mk in lists():
        obs.append(Ob(p,'ph_dlp, %s'%lab,DL+'ph_dlp','int',lambda env,res,mk=mk:run(env,res,mk),search=['dl.ph'],bound='order %s'%lab,fallback=True,weight=2))
    return obs

# ------------------------------------------------------------------------------------------------ two-dimensional logarithm
def vec2(ctx,v):
    """coefficients at P and Q"""
    k=el(ctx,v).k; c={'P':{},'Q':{}}
    for m,q in k.items():
        hit=[x for x in m if x in('P','Q')]
        if len(hit)!=1: raise Unsupported('not a combination of the basis')
        r=list(m); r.remove(hit[0]); c[hit[0]]=padd(c[hit[0]],{tuple(r):q})
    return c['P'],c['Q']
def pair_contracts(Dof):
    C=grp_contracts()
    def weil(ctx,a):
        n=pol(ld(ctx,a[3]))
        if n!=Dof(ctx): raise Unproved('pairing of another order')
        (a1,b1),(a2,b2)=vec2(ctx,a[1]),vec2(ctx,a[2])
        return GE(padd(pmul(a1,b2),pmul(b1,a2),-1),'w')
    C['pairing::weil_pairing']=weil
    return C
def bidlp_obs(p):
    obs=[]
    def run(env,res,k,given,fac=None):
        fn=env.fn(DL+'bidlp'); out=[]; ids=idents(env)
        def con():
            C=pair_contracts(lambda ctx:ctx.D)
            def ph(ctx,a):
                x,y=el(ctx,a[0]),el(ctx,a[1])
                if flist(ctx,a[2])!=ctx.f: raise Unproved('logarithm for another order')
                if y.k!=pconst(1) or y.b!='w': raise Unproved('base of the logarithm is not e(P,Q)')
                if x.b!='w' and x.k: raise Unproved('target in another group')
                v=next(iter(x.k)) if len(x.k)==1 else None
                if v in(('a',),('b',)) and x.k[v]==1: return IV(x.k)
                d=ctx.dom; r=d.fresh('log'); return IV({(r,):1})
            C[DL+'ph_dlp']=ph
            return C
        def dom():
            d=GrpDom(con()); d.idents=ids; return d
        def args(ctx):
            d=ctx.dom
            if fac: f=tuple(tuple(x) for x in const(env,fac+'_FACTORED')) if fac!='2^634' else ((2,const(env,'L_POWER')),); ctx.D=pprod(f)
            else:
                f=sym_factors(d,k); D=1
                for l,e in f: D=d.bigop(ctx,'mul',D,d.bigpow(ctx,l,e))
                ctx.D=pol(D)
            ctx.f=f
            opt=Some(GE(pconst(1),'w')) if given else NONE
            return [Ref(Cell(Opaque('curve'))),Ref(Cell(GE({('P','a'):1,('Q','b'):1}))),Ref(Cell(GE({('P',):1}))),Ref(Cell(GE({('Q',):1}))),Ref(Cell(f),(),(0,len(f))),opt]
        for o in explore(env.crate,dom,fn,args):
            res.paths+=1; note(res,o.ctx); d=o.ctx.dom
            if o.kind!='return': out.append(('no panic',True if not d.feasible() else None,o.msg)); continue
            out.append(('first coefficient',pol(o.ret[0])=={('a',):1} or None,repr(o.ret[0])))
            out.append(('second coefficient',pol(o.ret[1])=={('b',):1} or None,repr(o.ret[1])))
        return out
    for given in(0,1):
        t=', pairing given' if given else ''
        for k in range(1,20):
            obs.append(Ob(p,'bidlp, %d primes%s'%(k,t),DL+'bidlp','int',lambda env,res,k=k,given=given:run(env,res,k,given),search=['dl.bidlp'],bound='%d prime factors'%k,fallback=True))
        for fac in FACS: obs.append(Ob(p,'bidlp, %s%s'%(fac,t),DL+'bidlp','int',lambda env,res,fac=fac,given=given:run(env,res,0,given,fac),search=['dl.bidlp'],bound='order %s'%fac,fallback=True))
    return obs
