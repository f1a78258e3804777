"""Field domain: elements of F_p / F_p^2 as fractions of multivariate polynomials over F_p.

A function is executed with opaque field values; the field operations are replaced by their
contracts (exact arithmetic in the fraction field); tests for zero fork the execution and
record the equation or the disequation.  Postconditions are polynomial identities, decided
by computing normal forms."""
from interp import *

# ---------------------------------------------------------------- polynomials
# poly: dict  monomial -> coefficient in [1,p);  monomial: tuple of (var,exp), var ascending
class Ring:
    def __init__(self,p):
        self.p=p
        self.names=[]
        self.sq={}            # var -> poly: var^2 rewrites to poly
        self.frob=False       # x^p = x for every variable
        self.maxterms=400000
    def var(self,name):
        self.names.append(name)
        return len(self.names)-1
    def const(self,c):
        c%=self.p
        return {():c} if c else {}
    def v(self,i): return {((i,1),):1}
    def add(self,a,b,s=1):
        p=self.p
        if len(a)<len(b) and s==1: a,b=b,a
        r=dict(a)
        for m,c in b.items():
            v=(r.get(m,0)+s*c)%p
            if v: r[m]=v
            else: r.pop(m,None)
        return r
    def sub(self,a,b): return self.add(a,b,-1)
    def neg(self,a): return {m:self.p-c for m,c in a.items()}
    def scale(self,a,k):
        k%=self.p
        if k==0: return {}
        if k==1: return a
        p=self.p
        return {m:c*k%p for m,c in a.items()}
    def mmul(self,m,n):
        """product of monomials -> (monomial, needs_rewrite)"""
        if not m: return n,False
        if not n: return m,False
        d=dict(m); rw=False
        for v,e in n:
            d[v]=d.get(v,0)+e
        fr=self.frob; sq=self.sq
        for v in d:
            e=d[v]
            if fr and e>=self.p: d[v]=(e-1)%(self.p-1)+1
            if v in sq and d[v]>=2: rw=True
        return tuple(sorted(d.items())),rw
    def mul(self,a,b):
        p=self.p
        if len(a)>len(b): a,b=b,a
        if not a: return {}
        if len(a)==1 and () in a: return self.scale(b,a[()])
        if len(a)*len(b)>30_000_000: raise Unsupported('polynomial too large')
        r={}; todo=[]
        for m,c in a.items():
            for n,d in b.items():
                k,rw=self.mmul(m,n)
                if rw: todo.append((k,c*d%p))
                else: r[k]=r.get(k,0)+c*d
        r={m:c%p for m,c in r.items() if c%p}
        if todo:
            t={}
            for k,c in todo: t[k]=(t.get(k,0)+c)%p
            r=self.add(r,self.rewrite(t))
        if len(r)>self.maxterms: raise Unsupported('polynomial too large')
        return r
    def rewrite(self,t):
        out={}
        sq=self.sq
        while t:
            nt={}
            for m,c in t.items():
                if not c: continue
                # highest rewritable variable first
                hit=None
                for v,e in reversed(m):
                    if e>=2 and v in sq: hit=(v,e); break
                if hit is None:
                    x=(out.get(m,0)+c)%self.p
                    if x: out[m]=x
                    else: out.pop(m,None)
                    continue
                v,e=hit
                rest=tuple((w,f) for w,f in m if w!=v)
                base={(tuple(sorted(rest+((v,e&1),))) if e&1 else rest):c}
                pw=self.pow_raw(sq[v],e>>1)
                for m1,c1 in base.items():
                    for m2,c2 in pw.items():
                        k,_=self.mmul(m1,m2)
                        nt[k]=(nt.get(k,0)+c1*c2)%self.p
            t=nt
        return out
    def pow_raw(self,a,e):
        if e==1: return a
        if len(a)==1:
            (m,c),=a.items()
            return {tuple((v,x*e) for v,x in m):pow(c,e,self.p)}
        r={():1}
        for _ in range(e): r=self.mul(r,a)
        return r
    def pow(self,a,e):
        if len(a)==1 and e>0:
            return self.rewrite({self.mmul(m,())[0]:c for m,c in self.pow_raw(a,e).items()})
        r={():1}
        while e:
            if e&1: r=self.mul(r,a)
            a=self.mul(a,a) if e>1 else a
            e>>=1
        return r
    # ---- division helpers
    def lead(self,a): return max(a, key=lambda m:self.okey(m))
    def okey(self,m):
        # lex with higher variable index first
        return tuple(sorted(((v,e) for v,e in m),reverse=True))
    def divides(self,a,b):
        """exact quotient a/b or None"""
        if not b: return None
        if len(b)==1 and () in b: return self.scale(a,pow(b[()],-1,self.p))
        lb=self.lead(b); lc=b[lb]; ilc=pow(lc,-1,self.p)
        db=dict(lb)
        q={}; r=dict(a); n=0
        while r:
            n+=1
            if n>5000: return None
            lr=self.lead(r)
            dr=dict(lr)
            for v,e in db.items():
                x=dr.get(v,0)-e
                if x<0: return None
                if x: dr[v]=x
                else: dr.pop(v,None)
            m=tuple(sorted(dr.items()))
            c=r[lr]*ilc%self.p
            t={m:c}
            q=self.add(q,t)
            r2=self.sub(r,self.mul(t,b))
            if lr in r2: return None
            r=r2
        return q
    def content_monomial(self,a):
        it=iter(a)
        g=dict(next(it))
        for m in it:
            d=dict(m)
            for v in list(g):
                e=min(g[v],d.get(v,0))
                if e: g[v]=e
                else: del g[v]
            if not g: break
        return tuple(sorted(g.items()))
    def div_monomial(self,a,g):
        if not g: return a
        gd=dict(g)
        r={}
        for m,c in a.items():
            d=dict(m)
            for v,e in gd.items():
                d[v]-=e
                if not d[v]: del d[v]
            r[tuple(sorted(d.items()))]=c
        return r
    def vars(self,a):
        s=set()
        for m in a:
            for v,_ in m: s.add(v)
        return s
    def subst(self,a,v,num,den):
        """a with v := num/den, cleared: returns (poly, power of den)"""
        deg=0
        for m in a:
            for w,e in m:
                if w==v: deg=max(deg,e)
        if deg==0: return a,0
        parts={}
        for m,c in a.items():
            e=0
            rest=[]
            for w,f in m:
                if w==v: e=f
                else: rest.append((w,f))
            parts.setdefault(e,{})[tuple(rest)]=c
        r={}
        for e,q in parts.items():
            t=self.mul(q,self.mul(self.pow(num,e) if e else {():1},self.pow(den,deg-e) if deg>e else {():1}))
            r=self.add(r,t)
        return r,deg
    def eval(self,a,env):
        p=self.p; t=0
        for m,c in a.items():
            for v,e in m: c=c*pow(env[v],e,p)%p
            t+=c
        return t%p
    def show(self,a,n=6):
        if not a: return '0'
        o=[]
        for m,c in list(a.items())[:n]:
            cs=str(c) if c<1000 else (('-'+str(self.p-c)) if self.p-c<1000 else '#')
            o.append('*'.join([cs]+['%s^%d'%(self.names[v],e) if e>1 and e<1000 else self.names[v]+('' if e==1 else '^e') for v,e in m]))
        return ' + '.join(o)+(' + ...' if len(a)>n else '')

class FE(Sym):
    __slots__=('n','d')
    def __init__(self,n,d=None): self.n=n; self.d=d if d is not None else {():1}
    def __repr__(self): return 'FE(%d/%d terms)'%(len(self.n),len(self.d))

class LimbOf(Sym):
    __slots__=('fe','i')
    def __init__(self,fe,i): self.fe=fe; self.i=i
class ByteOf(Sym):
    __slots__=('fe','i')
    def __init__(self,fe,i): self.fe=fe; self.i=i
class ParOf(Sym):
    __slots__=('fe',)
    def __init__(self,fe): self.fe=fe
class KInt(Sym):
    """symbolic small integer multiplier"""
    __slots__=('fe',)
    def __init__(self,fe): self.fe=fe

ONES32=0xFFFFFFFF

class Field(Domain):
    level='fp'
    def __init__(self,p,level='fp',contracts=None,nl=21):
        Domain.__init__(self,contracts)
        self.p=p; self.level=level; self.nl=nl
        self.R=Ring(p)
        self.Rmont=pow(1<<(64*nl),-1,p)
        self.eqs=[]          # polynomials assumed zero and not eliminated
        self.nz=[]           # polynomials assumed non-zero
        self.subs=[]         # (var, num, den)
        self.roots=[]        # (f, the root the code got for it)
        self.sqfacts=[]      # (poly n*d, +1/-1)
        self.sqrt_hints=[]
        self.par={}
        self.par_free=True
        self.obl=[]; self.roots4=[]; self.no4=[]; self.pow4={}
        self.assume_nonzero=set()
        if level=='fp2':
            self.I=self.R.var('i'); self.R.sq[self.I]=self.R.const(-1)
        self.fresh=0
        self.sqelems=[]     # (element, quadratic character) supplied by the obligation
    # ------------------------------------------------ construction
    def var(self,name,nonzero=False,root_of=None):
        i=self.R.var(name)
        if nonzero: self.assume_nonzero.add(i)
        if root_of is not None: self.R.sq[i]=root_of
        return FE(self.R.v(i))
    def const(self,c): return FE(self.R.const(c))
    def fe(self,v):
        if isinstance(v,FE): return v
        if isinstance(v,tuple):
            if self.level=='fp2' and len(v)==2:
                a,b=self.fe1(v[0]),self.fe1(v[1])
                if not b.n: return a
                return self.add(a,self.mul(b,FE(self.R.v(self.I))))
            return self.fe1(v)
        raise Unsupported('not a field element: %r'%(type(v).__name__,))
    def fe1(self,v):
        if isinstance(v,FE): return v
        if isinstance(v,tuple):
            if len(v)==1 and isinstance(v[0],tuple): v=v[0]
            if len(v)==self.nl:
                if all(isinstance(x,int) for x in v):
                    n=sum(x<<(64*i) for i,x in enumerate(v))
                    return self.const(n*self.Rmont)
                f=v[0]
                if isinstance(f,LimbOf) and all(isinstance(x,LimbOf) and x.fe is f.fe and x.i==i for i,x in enumerate(v)): return f.fe
        raise Unsupported('field element built from limbs')
    def proj(self,ctx,v,i):
        if isinstance(v,FE) and i==0 and self.level=='fp': return tuple(LimbOf(v,k) for k in range(self.nl))
        raise Unsupported('field %d of %s'%(i,type(v).__name__))
    def upd(self,ctx,v,i,x):
        if isinstance(v,FE) and i==0 and self.level=='fp': return (x,)
        raise Unsupported('update')
    # ------------------------------------------------ arithmetic
    def add(self,a,b):
        R=self.R
        if a.d==b.d: return FE(R.add(a.n,b.n),a.d)
        return FE(R.add(R.mul(a.n,b.d),R.mul(b.n,a.d)),R.mul(a.d,b.d))
    def sub(self,a,b): return self.add(a,self.neg(b))
    def neg(self,a): return FE(self.R.neg(a.n),a.d)
    def mul(self,a,b):
        R=self.R
        if not a.n or not b.n: return FE({})
        return FE(R.mul(a.n,b.n),R.mul(a.d,b.d))
    def scale(self,a,k): return FE(self.R.scale(a.n,k),a.d)
    def inv(self,a): return FE(a.d,a.n)
    def pow(self,a,e):
        R=self.R
        if e==0: return self.const(1)
        return FE(R.pow(a.n,e),R.pow(a.d,e))
    # ------------------------------------------------ zero tests
    def norm(self,P):
        """apply the substitutions; returns polynomial proportional (by non-zero factor) to P"""
        for v,n,d in self.subs: P,_=self.R.subst(P,v,n,d)
        return P
    def reduce_eqs(self,P):
        for e in self.eqs:
            if not P: break
            q=self.R.divides(P,e)
            if q is not None: return {}
        return P
    def strip(self,P):
        """divide by factors known to be non-zero"""
        R=self.R
        if not P: return P
        g=R.content_monomial(P)
        g=tuple((v,e) for v,e in g if v in self.assume_nonzero)
        P=R.div_monomial(P,g)
        ch=True
        while ch and not(len(P)==1 and () in P):
            ch=False
            for z in self.nz:
                if len(z)>len(P) and len(P)==1: continue
                q=R.divides(P,z)
                if q is not None and q and R.mul(q,z)==P:
                    P=q; ch=True
                    g=R.content_monomial(P)
                    g=tuple((v,e) for v,e in g if v in self.assume_nonzero)
                    P=R.div_monomial(P,g)
                    break
        return P
    def known(self,P):
        """0: zero, 1: non-zero, None: unknown (with stripped residue)"""
        P=self.norm(P)
        P=self.reduce_eqs(P)
        if not P: return 0,P
        P=self.strip(P)
        if len(P)==1 and () in P: return 1,P
        if len(P)==1:
            (m,c),=P.items()
            if all(v in self.assume_nonzero or self.isI(v) for v,_ in m): return 1,P
        # i-norm for fp2: a+bi non-zero is handled by nz facts only
        return None,P
    def iszero(self,ctx,f):
        k,P=self.known(f.n)
        if k==0: return True
        if k==1: return False
        if ctx.decide(2,'zero')==0:
            self.assume_zero(P); return True
        self.assume_nz(P); return False
    def assume_nz(self,P):
        g=self.R.content_monomial(P)
        for v,_ in g:
            if not(self.level=='fp2' and v==self.I): self.assume_nonzero.add(v)
        P=self.R.div_monomial(P,g)
        if not(len(P)==1 and () in P): self.nz.append(P)
    def assume_zero(self,P):
        R=self.R
        # single monomial: one of its unknown variables is zero
        g=R.content_monomial(P)
        if g:
            rest=R.div_monomial(P,g)
            vs=[v for v,_ in g if v not in self.assume_nonzero]
            kk=self.known(rest)[0]
            if kk==1 and len(vs)==1: self.elim(vs[0],{},{():1}); return
        for h in self.sqrt_hints:
            Q=P; k=0
            while True:
                q=R.divides(Q,h)
                if q is None or R.mul(q,h)!=Q: break
                Q=q; k+=1
            if k and h!=P and self.known(Q)[0]==1: return self.assume_zero(h)
        # c1*u^2 + c2*v^2 = 0 with c2/c1 a square: -1 is not a square, so u = v = 0
        if self.level=='fp' and len(P)==2:
            (m1,c1),(m2,c2)=P.items()
            if all(e%2==0 for _,e in m1+m2) and pow(c2*pow(c1,-1,self.p)%self.p,(self.p-1)//2,self.p)==1:
                for m in(m1,m2):
                    h=self.norm({tuple((v,e//2) for v,e in m):1})
                    k,q=self.known(h)
                    if k==1: raise Infeasible()
                    if k is None: self.assume_zero(q)
                return
        # a root variable r (r^2 = q) occurring linearly: A + B*r = 0 implies A^2 = B^2 q
        rv=[v for v in R.vars(P) if v in R.sq and not(self.level=='fp2' and v==self.I)]
        if rv:
            v=max(rv)
            A={};B={}
            for m,k in P.items():
                if any(w==v for w,_ in m): B[tuple((w,e) for w,e in m if w!=v)]=k
                else: A[m]=k
            N=self.norm(R.sub(R.mul(A,A),R.mul(R.mul(B,B),R.sq[v])))
            k,N=self.known(N)
            if k==1: raise Infeasible()
            if k is None: self.assume_zero(N)
            P=self.norm(P)
            k,P=self.known(P)
            if k==0: return
            if k==1: raise Infeasible()
        # linear in some variable with non-zero coefficient
        deg={}
        for m in P:
            for v,e in m: deg[v]=max(deg.get(v,0),e)
        for v in sorted(deg,reverse=True):
            if deg[v]!=1 or (v in R.sq) or (self.level=='fp2' and v==self.I): continue
            if any(v in R.vars(q) for q in R.sq.values()): continue
            c={};r={}
            for m,k in P.items():
                if any(w==v for w,_ in m): c[tuple((w,e) for w,e in m if w!=v)]=k
                else: r[m]=k
            k,_=self.known(c)
            if k==1:
                if v in self.assume_nonzero:
                    if not r: raise Infeasible()
                    self.assume_nz(r)
                self.elim(v,R.neg(r),c); return
        # root variable: r occurs linearly with r^2 = q
        self.eqs.append(P)
    def elim(self,v,n,d):
        self.subs.append((v,n,d))
        for z in self.nz:
            zz=self.norm(z)
            if not zz: raise Infeasible()
        self.eqs=[self.norm(e) for e in self.eqs]
        nz=[self.norm(z) for z in self.nz]; self.nz=[]
        for z in nz: self.assume_nz(z)
        pl=list(self.par.values())
        for i,(f,b) in enumerate(pl):
            k=self.known(f.n)[0]
            if k==0:
                if b: raise Infeasible()
                continue
            for g,b2 in pl[:i]:
                if b!=b2 and self.equal(f,g): raise Infeasible()
                if b==b2 and k==1 and self.equal(f,self.neg(g)): raise Infeasible()
    def equal(self,a,b):
        """is a==b established on this path?"""
        R=self.R
        P=R.sub(R.mul(a.n,b.d),R.mul(b.n,a.d))
        P=self.norm(P)
        P=self.reduce_eqs(P)
        if not P: return True
        P=self.strip(P)
        P=self.reduce_eqs(P)
        return not P
    def residual(self,a,b):
        R=self.R
        return self.norm(R.sub(R.mul(a.n,b.d),R.mul(b.n,a.d)))
    # ------------------------------------------------ quadratic character over F_p
    def sqclass(self,f):
        """+1 / -1 / None for a non-zero element"""
        for g,s in self.sqelems:
            if self.equal(f,g): return s
        R=self.R
        P=R.mul(f.n,f.d)
        P=self.norm(P)
        for h in self.sqrt_hints:
            hh=R.mul(h,h)
            while len(P)>1:
                q=R.divides(P,hh)
                if q is None or R.mul(q,hh)!=P: break
                P=q
        if len(P)==1:
            (m,c),=P.items()
            if all(e%2==0 or self.isI(v) for v,e in m): return self.csq(c)
        if self.level=='fp2':
            # drop square monomial factors
            g=R.content_monomial(P); P=R.div_monomial(P,tuple((v,e-e%2) for v,e in g if e>1))
        for q,s in self.sqfacts:
            q=self.norm(q)
            if self.level=='fp2': q=R.div_monomial(q,tuple((v,e-e%2) for v,e in R.content_monomial(q) if e>1))
            # P = c*q ?
            if set(P)==set(q) and P:
                m=next(iter(P)); c=P[m]*pow(q[m],-1,self.p)%self.p
                if R.scale(q,c)==P: return s*self.csq(c)
        return None
    def isI(self,v): return self.level=='fp2' and v==self.I
    def csq(self,c):
        """character of a base-field constant: in the extension every one of them is a square"""
        return 1 if self.level=='fp2' or pow(c,(self.p-1)//2,self.p)==1 else -1
    def chi(self,ctx,f):
        if self.iszero(ctx,f): return 0
        s=self.sqclass(f)
        if s is None:
            s=1 if ctx.decide(2,'qr')==0 else -1
            self.sqfacts.append((self.R.mul(f.n,f.d),s))
        return s
    def sqrt(self,ctx,f):
        """contract of Fp::sqrt"""
        s=self.chi(ctx,f)
        if s==0: return self.const(0),ONES32
        if s<0: return self.const(0),0
        R=self.R
        for g,r in self.roots:
            if self.equal(f,g): return r,ONES32
        # perfect square?
        r=self.perfect_root(f)
        if r is None:
            self.fresh+=1
            num=self.norm(R.mul(f.n,f.d))
            v=R.var('r%d'%self.fresh)
            R.sq[v]=num
            self.assume_nonzero.add(v)
            r=FE(R.v(v),f.d)
        if ctx.decide(2,'root sign'): r=self.neg(r)
        if self.level=='fp': self.set_par(r,0)
        self.roots.append((f,r))
        return r,ONES32
    def perfect_root(self,f):
        R=self.R
        P=self.norm(R.mul(f.n,f.d))
        root={():1}
        for h in self.sqrt_hints:
            hh=R.mul(h,h)
            while len(P)>1:
                q=R.divides(P,hh)
                if q is None or R.mul(q,hh)!=P: break
                P=q; root=R.mul(root,h)
        if len(P)==1:
            (m,c),=P.items()
            if all(e%2==0 for _,e in m):
                q=pow(c,(self.p+1)//4,self.p)
                t={tuple((v,e//2) for v,e in m):q}
                if q*q%self.p!=c:      # then -c is a square of the base field
                    if self.level!='fp2': return None
                    t=R.mul(t,R.v(self.I))
                root=R.mul(root,t)
                return FE(root,f.d)
        return None
    # parity of the canonical representative
    def pkey(self,f):
        n,d=self.norm(f.n),self.norm(f.d)
        return n,d
    def find_par(self,f):
        for (g,b) in self.par.values():
            if self.equal(f,g): return b
            if self.equal(f,self.neg(g)): return 1-b
        return None
    def set_par(self,f,b):
        o=self.find_par(f)
        if o is not None and o!=b: raise Infeasible()
        self.par[len(self.par)]=(f,b)
    def parity(self,ctx,f):
        if self.iszero(ctx,f): return 0
        b=self.find_par(f)
        if b is None:
            if len(f.n)==1 and () in f.n and len(f.d)==1 and () in f.d:
                b=(f.n[()]*pow(f.d[()],-1,self.p)%self.p)&1
            else: b=ctx.decide(2,'parity')
            self.par[len(self.par)]=(f,b)
        return b
    # ------------------------------------------------ domain hooks
    def binop(self,ctx,op,ty,a,b):
        if op=='BitAnd':
            for x,y in((a,b),(b,a)):
                if isinstance(x,LimbOf) and isinstance(y,int):
                    if y==0: return 0
                    if y==(1<<64)-1: return x
                if isinstance(x,ParOf) and y==1: return self.parity(ctx,x.fe)
                if isinstance(x,ByteOf) and x.i==0 and y==1: return self.parity(ctx,x.fe)
        if op=='Rem' and isinstance(a,(ByteOf,ParOf)) and b==2: return self.parity(ctx,a.fe)
        raise Unsupported('field binop %s %s %s'%(op,type(a).__name__,type(b).__name__))
    def cast(self,ctx,a,fr,to):
        if isinstance(a,ByteOf) and a.i==0: return ParOf(a.fe)
        if isinstance(a,ParOf): return a
        raise Unsupported('field cast')
    def branch(self,ctx,v,label): raise Unsupported('branch')

# ---------------------------------------------------------------- contracts
def mask(ctl):
    if isinstance(ctl,int) and ctl in(0,ONES32): return ctl
    raise Unsupported('control word is not 0/0xFFFFFFFF: %r'%(ctl,))

def fp_contracts(prefix,elem):
    """contracts of the arithmetic primitives of `prefix` (Fp or Fp2) in the field domain"""
    C={}
    def con(name):
        def deco(f):
            C[prefix+name]=f; return f
        return deco
    def D(ctx): return ctx.dom
    def get(ctx,v):
        if isinstance(v,Ref): v=ctx.load(v)
        return ctx.dom.fe(v)
    def put(ctx,r,x): ctx.store(r,x); return ()
    def bin_(name,f):
        def h(ctx,a): return put(ctx,a[0],f(ctx.dom,get(ctx,a[0]),get(ctx,a[1])))
        C[prefix+name]=h
    def un_(name,f):
        def h(ctx,a): return put(ctx,a[0],f(ctx.dom,get(ctx,a[0])))
        C[prefix+name]=h
    bin_('set_add',lambda d,x,y:d.add(x,y))
    bin_('set_sub',lambda d,x,y:d.sub(x,y))
    bin_('set_mul',lambda d,x,y:d.mul(x,y))
    un_('set_neg',lambda d,x:d.neg(x))
    un_('set_square',lambda d,x:d.mul(x,x))
    un_('set_half',lambda d,x:d.scale(x,(d.p+1)//2))
    un_('set_mul2',lambda d,x:d.scale(x,2))
    un_('set_mul3',lambda d,x:d.scale(x,3))
    un_('set_mul4',lambda d,x:d.scale(x,4))
    un_('set_mul8',lambda d,x:d.scale(x,8))
    @con('set_mul_small')
    def _(ctx,a):
        k=a[1]
        x=get(ctx,a[0])
        if isinstance(k,int): return put(ctx,a[0],ctx.dom.scale(x,k))
        if isinstance(k,KInt): return put(ctx,a[0],ctx.dom.mul(x,k.fe))
        raise Unsupported('mul_small')
    @con('set_div')
    def _(ctx,a):
        x=get(ctx,a[0]); y=get(ctx,a[1])
        if ctx.dom.iszero(ctx,y): return put(ctx,a[0],ctx.dom.const(0))
        return put(ctx,a[0],ctx.dom.mul(x,ctx.dom.inv(y)))
    def inv(ctx,x):
        if ctx.dom.iszero(ctx,x): return ctx.dom.const(0)
        return ctx.dom.inv(x)
    @con('set_invert')
    def _(ctx,a): return put(ctx,a[0],inv(ctx,get(ctx,a[0])))
    @con('invert')
    def _(ctx,a): return inv(ctx,get(ctx,a[0]))
    @con('iszero')
    def _(ctx,a): return ONES32 if ctx.dom.iszero(ctx,get(ctx,a[0])) else 0
    @con('equals')
    def _(ctx,a):
        return ONES32 if ctx.dom.iszero(ctx,ctx.dom.sub(get(ctx,a[0]),get(ctx,a[1]))) else 0
    @con('set_select')
    def _(ctx,a): return put(ctx,a[0],get(ctx,a[2] if mask(a[3]) else a[1]))
    @con('select')
    def _(ctx,a): return get(ctx,a[1] if mask(a[2]) else a[0])
    @con('set_cond')
    def _(ctx,a):
        if mask(a[2]): put(ctx,a[0],get(ctx,a[1]))
        return ()
    @con('set_condneg')
    def _(ctx,a):
        if mask(a[1]): put(ctx,a[0],ctx.dom.neg(get(ctx,a[0])))
        return ()
    @con('condswap')
    def _(ctx,a):
        if mask(a[2]):
            x,y=get(ctx,a[0]),get(ctx,a[1])
            ctx.store(a[0],y); ctx.store(a[1],x)
        return ()
    if elem=='Fp2':
        @con('legendre')
        def _(ctx,a): return ctx.dom.chi(ctx,get(ctx,a[0]))
        @con('sqrt')
        def _(ctx,a): return ctx.dom.sqrt(ctx,get(ctx,a[0]))
        @con('set_sqrt')
        def _(ctx,a):
            r,c=ctx.dom.sqrt(ctx,get(ctx,a[0])); put(ctx,a[0],r); return c
        def fourth2(ctx,x):
            d=ctx.dom
            if d.iszero(ctx,x): return d.const(0),ONES32
            for g,r in d.roots4:
                if d.equal(x,g): return r,ONES32
            if ctx.decide(2,'fourth root exists'): d.no4.append(x); return d.const(0),0
            d.fresh+=1; v=d.R.var('q%d'%d.fresh)
            r=FE(d.R.v(v)); d.assume_nonzero.add(v); d.pow4[v]=x; d.roots4.append((x,r))
            return r,ONES32
        @con('fourth_root')
        def _(ctx,a): return fourth2(ctx,get(ctx,a[0]))
        @con('set_fourth_root')
        def _(ctx,a):
            r,c=fourth2(ctx,get(ctx,a[0])); put(ctx,a[0],r); return c
    if elem=='Fp':
        @con('sum_of_products')
        def _(ctx,a):
            d=ctx.dom; x=[get(ctx,v) for v in a]
            return d.add(d.mul(x[0],x[1]),d.mul(x[2],x[3]))
        @con('difference_of_products')
        def _(ctx,a):
            d=ctx.dom; x=[get(ctx,v) for v in a]
            return d.sub(d.mul(x[0],x[1]),d.mul(x[2],x[3]))
        @con('legendre')
        def _(ctx,a): return ctx.dom.chi(ctx,get(ctx,a[0]))
        @con('sqrt')
        def _(ctx,a): return ctx.dom.sqrt(ctx,get(ctx,a[0]))
        @con('set_sqrt')
        def _(ctx,a):
            r,c=ctx.dom.sqrt(ctx,get(ctx,a[0])); put(ctx,a[0],r); return c
        def fourth(ctx,x):
            d=ctx.dom
            s=d.chi(ctx,x)
            if s==0: return d.const(0),ONES32
            if s<0: return d.const(0),0
            r,_=d.sqrt4(ctx,x)
            return r,ONES32
        @con('fourth_root')
        def _(ctx,a): return fourth(ctx,get(ctx,a[0]))
        @con('set_fourth_root')
        def _(ctx,a):
            r,c=fourth(ctx,get(ctx,a[0])); put(ctx,a[0],r); return c
        @con('encode')
        def _(ctx,a):
            f=get(ctx,a[0])
            return tuple(ByteOf(f,i) for i in range(162))
    return C

def sqrt4(self,ctx,f):
    """a fourth root of a non-zero square: the root of that square root which is a square"""
    R=self.R
    r=self.perfect_root(f)
    if r is None:
        self.fresh+=1
        v=R.var('q%d'%self.fresh); R.sq[v]=self.norm(R.mul(f.n,f.d)); self.assume_nonzero.add(v)
        r=FE(R.v(v),f.d)
    s=self.sqclass(r)
    if s is None:
        # one of r,-r is a square; name it r
        s=1 if ctx.decide(2,'qr root')==0 else -1
        self.sqfacts.append((R.mul(r.n,r.d),s))
    if s<0: r=self.neg(r)
    w=self.perfect_root(r)
    if w is None:
        self.fresh+=1
        v=R.var('w%d'%self.fresh); R.sq[v]=self.norm(R.mul(r.n,r.d)); self.assume_nonzero.add(v)
        w=FE(R.v(v),r.d)
    if ctx.decide(2,'root sign'): w=self.neg(w)
    self.set_par(w,0)
    return w,ONES32
Field.sqrt4=sqrt4
