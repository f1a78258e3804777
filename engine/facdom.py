"""Field domain for long products: an element is a constant times a product of powers of atoms.  An atom is an unknown or an
interned sum (polynomial over atoms, leading coefficient one, no common factor).  Sums of short products are expanded over the
unknowns; sums of long products are kept as they are.  Two elements with the same representation are equal; elements that
differ at a fixed pseudo-random point are different; anything else is left undecided."""
import random
from field import *
class FA(Sym):
    __slots__=('c','d')
    def __init__(self,c,d=None): self.c=c; self.d=(d or {}) if c else {}
    def same(self,o): return isinstance(o,FA) and self.c==o.c and self.d==o.d
    def __repr__(self): return 'FA(%d,%d factors)'%(self.c if self.c<1000 else -1,len(self.d))
class Undecided(Exception): pass
class FacDom(Field):
    LIMIT=96
    def __init__(self,p,contracts=None):
        Field.__init__(self,p,'fp2',contracts)
        self.kind=[]; self.val=[]; self.intern={}; self.rng=random.Random(20261118); self.nonzero_used=[]
    def atom(self,key,val,terms=None):
        i=self.intern.get(key)
        if i is None:
            i=len(self.val); self.intern[key]=i; self.kind.append(terms); self.val.append(val)
        return i
    def var(self,name,nonzero=False,root_of=None): return FA(1,{self.atom(('v',name),self.rng.randrange(1,self.p)):1})
    def const(self,c): return FA(c%self.p)
    def fe(self,v):
        if isinstance(v,FA): return v
        if isinstance(v,tuple) and len(v)==2:
            a,b=self.fe1(v[0]),self.fe1(v[1])
            if not b.c: return a
            raise Unsupported('imaginary constant')
        raise Unsupported('not a field element: %r'%(type(v).__name__,))
    def fe1(self,v):
        if isinstance(v,FA): return v
        return Field.fe1(self,v)
    def mul(self,a,b):
        if not a.c or not b.c: return FA(0)
        if len(a.d)<len(b.d): a,b=b,a
        d=dict(a.d)
        for k,e in b.d.items():
            n=d.get(k,0)+e
            if n: d[k]=n
            else: del d[k]
        return FA(a.c*b.c%self.p,d)
    def prod(self,fs):
        c=1; o={}
        for f in fs:
            c=c*f.c%self.p
            for k,e in f.d.items(): o[k]=o.get(k,0)+e
        return FA(c,{k:e for k,e in o.items() if e})
    def scale(self,a,k): return FA(a.c*k%self.p,a.d)
    def neg(self,a): return FA(-a.c%self.p,a.d)
    def inv(self,a):
        if not a.c: return FA(0)
        return FA(pow(a.c,-1,self.p),{k:-e for k,e in a.d.items()})
    def pow(self,a,e):
        if e==0: return FA(1)
        return FA(pow(a.c,e,self.p),{k:x*e for k,x in a.d.items()})
    # ---- sums
    def expand(self,d):
        """product with positive exponents -> {monomial: coefficient}"""
        n=1
        for k,e in d.items():
            t=self.kind[k]
            if t is not None:
                n*=len(t)**e
                if n>self.LIMIT: return {tuple(sorted(d.items())):1}
        r={():1}
        for k,e in d.items():
            t=self.kind[k]
            for _ in range(e if t is not None else 1):
                o={}
                for m,c in r.items():
                    for m2,c2 in (t.items() if t is not None else (((( k,e),),1),)):
                        x=dict(m)
                        for v,q in m2: x[v]=x.get(v,0)+q
                        key=tuple(sorted(x.items())); o[key]=(o.get(key,0)+c*c2)%self.p
                r={m:c for m,c in o.items() if c}
        return r
    def add(self,a,b):
        if not a.c: return b
        if not b.c: return a
        if a.d==b.d: return FA((a.c+b.c)%self.p,a.d)
        g={}
        for k in (a.d if len(a.d)<=len(b.d) else b.d):
            m=min(a.d.get(k,0),b.d.get(k,0))
            if m: g[k]=m
        for x,y in((a.d,b.d),(b.d,a.d)):
            for k,e in x.items():
                if e<0 and k not in y: g[k]=e
        def quo(d):
            o=dict(d)
            for k,e in g.items():
                n=o.get(k,0)-e
                if n: o[k]=n
                else: o.pop(k,None)
            return o
        s={}
        for x in(a,b):
            for m,c in self.expand(quo(x.d)).items():
                n=(s.get(m,0)+c*x.c)%self.p
                if n: s[m]=n
                else: s.pop(m,None)
        return self.mul(FA(1,g),self.sum(s))
    def sum(self,s):
        if not s: return FA(0)
        # common factor and leading coefficient
        ms=list(s); com=dict(ms[0])
        for m in ms[1:]:
            o=dict(m); com={k:min(e,o[k]) for k,e in com.items() if k in o}
            if not com: break
        if len(ms)==1: return FA(s[ms[0]],dict(ms[0]))
        if com:
            t={}
            for m,c in s.items():
                o=dict(m)
                for k,e in com.items():
                    o[k]-=e
                    if not o[k]: del o[k]
                t[tuple(sorted(o.items()))]=c
            s=t
        l=max(s); lc=s[l]; i=pow(lc,-1,self.p); s={m:c*i%self.p for m,c in s.items()}
        val=sum(c*self.mval(m) for m,c in s.items())%self.p
        k=self.atom(('s',frozenset(s.items())),val,s)
        return self.mul(FA(lc,com),FA(1,{k:1}))
    def mval(self,m):
        r=1
        for k,e in m: r=r*pow(self.val[k],e,self.p)%self.p
        return r
    def value(self,a): return a.c*self.mval(a.d.items())%self.p
    def equal(self,a,b):
        if a.c==b.c and a.d==b.d: return True
        if self.value(a)!=self.value(b): return False
        return None
    def iszero(self,ctx,f):
        if not f.c: return True
        self.nonzero_used.append(f); return False
    def show(self,a):
        o=[]
        for k,e in list(a.d.items())[:6]:
            n=next((q for q,i in self.intern.items() if i==k),None)
            o.append('%s^%d'%(n[1] if n[0]=='v' else 'sum%d'%k,e))
        return '%s*'%(a.c if a.c<10**6 else a.c-self.p if self.p-a.c<10**6 else '?')+'*'.join(o)+('...' if len(a.d)>6 else '')
