"""Mathematical and machine integers: values are polynomials over named unknowns, conditions are decided by z3
(nonlinear integer arithmetic); an undecided condition forks the path."""
import z3,itertools
from interp import *
from limb import padd,pconst,pscale
def pmul(p,q):
    o={}
    for m,c in p.items():
        for m2,c2 in q.items():
            k=tuple(sorted(m+m2)); o[k]=o.get(k,0)+c*c2
    return {k:c for k,c in o.items() if c}
class IV(Sym):
    __slots__=('p',)
    def __init__(self,p): self.p=p
    def same(self,o): return isinstance(o,IV) and self.p==o.p
    def __repr__(self): return 'IV(%s)'%' + '.join('%d*%s'%(c,'*'.join(m) or '1') for m,c in sorted(self.p.items()))[:300]
class IB(Sym):
    __slots__=('t',)
    def __init__(self,t): self.t=t
class CW(Sym):
    """control word: all-ones when t holds, else zero"""
    __slots__=('t',)
    def __init__(self,t): self.t=t
def pol(v):
    if isinstance(v,IV): return v.p
    if isinstance(v,bool): return pconst(int(v))
    if isinstance(v,int): return pconst(v) if v else {}
    raise Unsupported('not an integer: %r'%(type(v).__name__,))
def iv(p):
    if not p: return 0
    if len(p)==1 and () in p: return p[()]
    return IV(p)
class IntDom(Domain):
    timeout=3000
    def __init__(self,contracts=None):
        Domain.__init__(self,contracts); self.facts=[]; self.n=0; self.pw={}; self.solver=z3.Solver(); self.solver.set('timeout',self.timeout)
    # ---- terms
    def z(self,p):
        p=pol(p) if not isinstance(p,dict) else p
        t=z3.IntVal(0)
        ts=[]
        for m,c in sorted(p.items()):
            f=z3.IntVal(c)
            for v in m: f=f*z3.Int(v)
            ts.append(f)
        return z3.Sum(ts) if ts else z3.IntVal(0)
    def var(self,name,lo=None,hi=None):
        v=IV({(name,):1})
        if lo is not None: self.assume(z3.Int(name)>=lo)
        if hi is not None: self.assume(z3.Int(name)<hi)
        return v
    def fresh(self,base='v'):
        self.n+=1; return '%s#%d'%(base,self.n)
    def assume(self,t): self.facts.append(t); self.solver.add(t)
    def fresh_like(self,ctx,name,v):
        if isinstance(v,bool): return None
        if isinstance(v,(int,IV)): return IV({(name,):1})
        return None
    def proves(self,t):
        t=z3.simplify(t)
        if z3.is_true(t): return True
        if z3.is_false(t): return False
        if z3.is_and(t) and len(self.facts)<400:
            return all(self.proves(c) for c in t.children())
        fs=getattr(self,'_known',None)
        if fs is None: fs=self._known=(set(),[0])
        while fs[1][0]<len(self.facts):
            f=z3.simplify(self.facts[fs[1][0]]); fs[1][0]+=1
            st=[f]
            while st:
                g=st.pop()
                if z3.is_and(g): st+=g.children()
                elif z3.is_implies(g) or z3.is_or(g):
                    # an implication with a known premise
                    st+=self.mp(g,fs[0])
                else: fs[0].add(g.get_id()); self.keep=getattr(self,'keep',[]); self.keep.append(g)
        if t.get_id() in fs[0]: return True
        s=self.solver; s.push(); s.add(z3.Not(t)); r=s.check(); s.pop()
        return r==z3.unsat
    def mp(self,g,known): return []
    def feasible(self): return self.solver.check()!=z3.unsat
    def branch(self,ctx,v,label):
        t=v.t
        if self.proves(t): return True
        if self.proves(z3.Not(t)): return False
        r=ctx.decide(2,label)==0
        self.assume(t if r else z3.Not(t)); return r
    def switch(self,ctx,v,cases,ty):
        if isinstance(v,IB): return 1 if self.branch(ctx,v,'') else 0
        if isinstance(v,CW):
            if self.branch(ctx,IB(v.t),'switch'): return 0xFFFFFFFF
            return 0
        for c in cases:
            if self.branch(ctx,IB(self.z(v)==c),'switch'): return c
        n=max(cases)+1
        while n in cases: n+=1
        return n
    def check_assert(self,ctx,v,msg,f): return self.branch(ctx,v,'assert')
    def bnot(self,ctx,v): return IB(z3.Not(v.t))
    def concretize_index(self,ctx,i): raise Unsupported('symbolic index')
    # ---- machine integers
    def divmod(self,ctx,a,b,name='d'):
        """floor division of a by positive b (both proven non-negative)"""
        q,r=self.fresh(name+'q'),self.fresh(name+'r')
        A,B=self.z(a),self.z(b); Q,R=z3.Int(q),z3.Int(r)
        self.assume(z3.And(A==B*Q+R,R>=0,R<B,Q>=0))
        return IV({(q,):1}),IV({(r,):1})
    def binop(self,ctx,op,ty,a,b):
        if isinstance(a,IB) or isinstance(b,IB):
            x=a.t if isinstance(a,IB) else z3.BoolVal(bool(a)); y=b.t if isinstance(b,IB) else z3.BoolVal(bool(b))
            return IB({'BitAnd':z3.And,'BitOr':z3.Or,'BitXor':z3.Xor,'Eq':lambda p,q:p==q,'Ne':z3.Xor}[op](x,y))
        if isinstance(a,CW) or isinstance(b,CW):
            def tt(v):
                if isinstance(v,CW): return v.t
                if v in(0,0xFFFFFFFF): return z3.BoolVal(v!=0)
                raise Unsupported('control word arithmetic')
            x,y=tt(a),tt(b)
            if op=='Eq': return IB(x==y)
            if op=='Ne': return IB(z3.Xor(x,y))
            if op in('BitAnd','BitOr','BitXor'): return CW({'BitAnd':z3.And,'BitOr':z3.Or,'BitXor':z3.Xor}[op](x,y))
            raise Unsupported('control word '+op)
        cmpo={'Eq':lambda x,y:x==y,'Ne':lambda x,y:x!=y,'Lt':lambda x,y:x<y,'Le':lambda x,y:x<=y,'Gt':lambda x,y:x>y,'Ge':lambda x,y:x>=y}
        if op in cmpo:
            d=padd(pol(a),pol(b),-1)
            if not d or (len(d)==1 and () in d): return cmpo[op](d.get((),0),0)
            return IB(cmpo[op](self.z(a),self.z(b)))
        if ty not in INT_TYPES: raise Unsupported('binop type '+ty)
        w,s=INT_TYPES[ty]; lo,hi=(-(1<<w-1),1<<w-1) if s else (0,1<<w)
        inr=lambda t:z3.And(t>=lo,t<hi)
        o=op.replace('WithOverflow','').replace('Unchecked','')
        if o in('Add','Sub','Mul'):
            r=padd(pol(a),pol(b)) if o=='Add' else padd(pol(a),pol(b),-1) if o=='Sub' else pmul(pol(a),pol(b))
            if op.endswith('WithOverflow'):
                t=inr(self.z(r))
                if self.proves(t): return (iv(r),False)
                return (iv(r),IB(z3.Not(t)))
            if not self.proves(inr(self.z(r))): raise Unsupported('wrapping arithmetic')
            return iv(r)
        if o in('Shr','Div') and isinstance(b,int) or o=='Rem' and isinstance(b,int) or o=='BitAnd' and isinstance(b,int) and b&(b+1)==0:
            m=(1<<b) if o=='Shr' else b+1 if o=='BitAnd' else b
            if m<=0 or not self.proves(self.z(a)>=0): raise Unsupported('signed division')
            q,r=self.divmod(ctx,a,m); return q if o in('Shr','Div') else r
        if o in('Div','Rem'):
            if not self.proves(z3.And(self.z(a)>=0,self.z(b)>0)): raise Unsupported('division')
            q,r=self.divmod(ctx,a,b); return q if o=='Div' else r
        if o=='Shl' and isinstance(b,int):
            r=pscale(pol(a),1<<b)
            if not self.proves(inr(self.z(r))): raise Unsupported('shift out of range')
            return iv(r)
        raise Unsupported('binop %s'%op)
    def unop(self,ctx,op,ty,a):
        if op=='Not' and isinstance(a,CW): return CW(z3.Not(a.t))
        if op=='Not' and isinstance(a,IB): return IB(z3.Not(a.t))
        raise Unsupported('unop '+op)
    def cast(self,ctx,a,fr,to):
        if isinstance(a,IB): return 1 if self.branch(ctx,a,'cast') else 0
        w,s=INT_TYPES[to]; lo,hi=(-(1<<w-1),1<<w-1) if s else (0,1<<w)
        if self.proves(z3.And(self.z(a)>=lo,self.z(a)<hi)): return a
        if s or not self.proves(self.z(a)>=0): raise Unsupported('narrowing cast')
        return self.divmod(ctx,a,1<<w)[1]
    # ---- big integers
    def bigop(self,ctx,op,x,y):
        x,y=pol(x),pol(y)
        return iv(padd(x,y) if op=='add' else padd(x,y,-1) if op=='sub' else pmul(x,y))
    def bigusub(self,ctx,x,y):
        if not self.branch(ctx,IB(self.z(x)>=self.z(y)),'usub'): raise Panic('BigUint subtraction underflow')
        return self.bigop(ctx,'sub',x,y)
    @staticmethod
    def exact(x,y):
        """quotient when the (non-zero) monomial y divides every monomial of x"""
        if len(y)!=1 or not any(y): return None
        (m,c),=y.items(); q={}
        for k,v in x.items():
            l=list(k)
            if v%c: return None
            for t in m:
                if t not in l: return None
                l.remove(t)
            q[tuple(l)]=v//c
        return q
    def bigdiv(self,ctx,op,x,y,unsigned):
        X,Y=self.z(x),self.z(y)
        if not self.branch(ctx,IB(Y!=0),'div'): raise Panic('division by zero')
        e=self.exact(pol(x),pol(y))
        if e is not None: return iv(e) if op=='div' else 0
        key=('q',tuple(sorted(pol(x).items())),tuple(sorted(pol(y).items())))
        if key not in self.pw:
            q=self.fresh('q'); r=self.z(padd(pol(x),pmul(pol(y),{(q,):1}),-1))
            # truncated division; stated for the signs at hand
            if self.proves(z3.And(X>=0,Y>0)): self.assume(z3.And(r>=0,r<Y,z3.Int(q)>=0))
            else: self.assume(z3.Implies(z3.And(X>=0,Y>0),z3.And(r>=0,r<Y,z3.Int(q)>=0)))
            if not unsigned and not self.proves(z3.And(X>=0,Y>0)):
                self.assume(z3.Implies(z3.And(X<=0,Y>0),z3.And(r<=0,r>-Y,z3.Int(q)<=0)))
                self.assume(z3.Implies(z3.And(X>=0,Y<0),z3.And(r>=0,r<-Y)))
                self.assume(z3.Implies(z3.And(X<=0,Y<0),z3.And(r<=0,r>Y)))
            self.pw[key]=q
        q=self.pw[key]
        return IV({(q,):1}) if op=='div' else iv(padd(pol(x),pmul(pol(y),{(q,):1}),-1))
    def bigcmp(self,ctx,op,x,y):
        d=padd(pol(x),pol(y),-1)
        if op in('cmp','partial_cmp'):
            t=self.z(d)
            if self.branch(ctx,IB(t<0),'cmp'): e=Enum(*STD_ENUMS['Less'])
            elif self.branch(ctx,IB(t==0),'cmp'): e=Enum(*STD_ENUMS['Equal'])
            else: e=Enum(*STD_ENUMS['Greater'])
            return e if op=='cmp' else Some(e)
        f={'eq':lambda t:t==0,'ne':lambda t:t!=0,'lt':lambda t:t<0,'le':lambda t:t<=0,'gt':lambda t:t>0,'ge':lambda t:t>=0}[op]
        if not d or (len(d)==1 and () in d): return bool(f(d.get((),0)))
        return IB(f(self.z(d)))
    def bigsign(self,ctx,x):
        t=self.z(x)
        if self.branch(ctx,IB(t<0),'sign'): return Enum(*STD_ENUMS['Sign::Minus'])
        if self.branch(ctx,IB(t>0),'sign'): return Enum(*STD_ENUMS['Sign::Plus'])
        return Enum(*STD_ENUMS['Sign::NoSign'])
    def to_biguint(self,ctx,x):
        return NONE if self.branch(ctx,IB(self.z(x)<0),'sign') else Some(x)
    def bigpow(self,ctx,x,e):
        key=('p',tuple(sorted(pol(x).items())),tuple(sorted(pol(e).items())))
        if key not in self.pw:
            n=self.fresh('pow'); self.pw[key]=n; N=z3.Int(n)
            if self.proves(self.z(x)>=1): self.assume(N>=1)
        return IV({(self.pw[key],):1})
    def bigbits(self,ctx,x): raise Unsupported('bits')

# ---- candidate invariants
class Cand:
    """z3 predicate over the values of some leaves"""
    def __init__(self,name,keys,f): self.name=name; self.keys=keys; self.f=f
    def holds(self,ctx,vals,init): return ctx.dom.proves(self.f(*[ctx.dom.z(vals[k]) for k in self.keys]))
    def assume(self,ctx,vals): ctx.dom.assume(self.f(*[ctx.dom.z(vals[k]) for k in self.keys]))
class Measure:
    """non-negative integer expression of the leaves that decreases"""
    def __init__(self,name,keys,f): self.name=name; self.keys=keys; self.f=f
    def decreases(self,ctx,old,new):
        a=self.f(*[ctx.dom.z(old[k]) for k in self.keys]); b=self.f(*[ctx.dom.z(new[k]) for k in self.keys])
        return ctx.dom.proves(z3.And(b<a,b>=0))
class Congr:
    """x = y*A modulo B"""
    def __init__(self,x,y,A,B): self.x=x; self.y=y; self.A=A; self.B=B; self.name='%s=%s*%s mod %s'%(x,y,A,B)
    def goal(self,vals): return padd(pol(vals[self.x]),pmul(pol(vals[self.y]),{(self.A,):1}),-1)
    def holds(self,ctx,vals,init): return congr_zero(ctx,self.goal(vals),self.B)
    def assume(self,ctx,vals):
        x=next(iter(pol(vals[self.x])))[0]
        ctx.rules.setdefault(x,[]).append(pmul(pol(vals[self.y]),{(self.A,):1}))
def subst(p,var,q):
    o={}
    for m,c in p.items():
        k=m.count(var); rest=tuple(v for v in m if v!=var); t={rest:c}
        for _ in range(k): t=pmul(t,q)
        o=padd(o,t)
    return o
def congr_zero(ctx,g,B):
    """g = 0 mod B using the congruence rules of the path (some choice of one rule per variable)"""
    drop=lambda p:{m:c for m,c in p.items() if B not in m}
    g=drop(g)
    if not g: return True
    xs=[x for x in ctx.rules if any(x in m for m in g)]
    for ch in itertools.product(*[ctx.rules[x]+[None] for x in xs]):
        h=g
        for x,r in zip(xs,ch):
            if r is not None: h=drop(subst(h,x,r))
        if not h: return True
    return False
class Ideal:
    """the pair (x,y) generates the same ideal as (A,B), i.e. gcd(x,y)=gcd(A,B)"""
    def __init__(self,x,y,A,B): self.x=x; self.y=y; self.AB=(A,B); self.name='gcd(%s,%s)'%(x,y)
    def holds(self,ctx,vals,init):
        u,v=self.AB if init else ctx.ideal[(self.x,self.y)]
        M=[]
        for k in(self.x,self.y):
            p=pol(vals[k]); a={};b={}
            for m,c in p.items():
                if u in m: l=list(m); l.remove(u); a=padd(a,{tuple(l):c})
                elif v in m: l=list(m); l.remove(v); b=padd(b,{tuple(l):c})
                else: return False
            M.append((a,b))
        det=padd(pmul(M[0][0],M[1][1]),pmul(M[0][1],M[1][0]),-1)
        return det in({():1},{():-1})
    def assume(self,ctx,vals):
        ctx.ideal[(self.x,self.y)]=tuple(next(iter(pol(vals[k])))[0] for k in(self.x,self.y))
