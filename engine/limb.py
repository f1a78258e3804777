"""Integer ("limb") domain: exact reasoning about multi-word carry arithmetic.

A machine integer is a polynomial with integer coefficients over atoms; every atom
has a proved interval, and an atom made by splitting a sum T into low and high words
carries its definition  d = T - 2^k*h.  Nothing is approximated: the congruence
obligations are discharged by expanding the definitions (all carries telescope), the
range obligations by interval arithmetic, by elimination, and by linear arithmetic
over the reals (z3)."""
from fractions import Fraction
import heapq, math
from interp import *

LIMB_FAIL=None

def padd(a,b,s=1):
    if len(a)<len(b) and s==1: a,b=b,a
    r=dict(a)
    for m,c in b.items():
        v=r.get(m,0)+s*c
        if v: r[m]=v
        else: r.pop(m,None)
    return r
def pscale(a,k):
    if k==0: return {}
    return {m:c*k for m,c in a.items()}
def pconst(k): return {():k} if k else {}

class SymInt(Sym):
    __slots__=('poly','lo','hi')
    def __init__(self,poly,lo,hi): self.poly=poly; self.lo=lo; self.hi=hi
    def __repr__(self): return 'S%s[%d,%d]'%(list(self.poly.items())[:4],self.lo,self.hi)
class SymXor(Sym):
    __slots__=('terms','w')
    def __init__(self,terms,w): self.terms=terms; self.w=w      # list of values
class SymMaskXor(Sym):
    __slots__=('c','terms','w')
    def __init__(self,c,terms,w): self.c=c; self.terms=terms; self.w=w
class SymEq(Sym):
    """boolean: expr==0 (neg: expr!=0)"""
    __slots__=('e','neg')
    def __init__(self,e,neg=False): self.e=e; self.neg=neg
class SymRange(Sym):
    """boolean: value out of [lo,hi]"""
    __slots__=('e','lo','hi')
    def __init__(self,e,lo,hi): self.e=e; self.lo=lo; self.hi=hi

class Atom:
    __slots__=('id','lo','hi','defn','partner','name','fixed','mod','mask')
    def __init__(self,i,lo,hi,name):
        self.id=i; self.lo=lo; self.hi=hi; self.name=name; self.defn=None; self.partner=None; self.fixed=None; self.mod=None; self.mask=False

class Limb(Domain):
    def __init__(self,contracts=None,p=None,nl=21):
        Domain.__init__(self,contracts)
        self.atoms=[]
        self.memo={}
        self.p=p; self.nl=nl; self.R=1<<(64*nl)
        self.inputs=[]         # (value atom, sum of limbs)
        self.dividends=[]      # words multiplied by a large constant (division by multiplication)
        self.facts=[]          # (poly, lo, hi)  extra linear facts
        self.obl=[]            # log of side obligations discharged: (kind, text)
        self.lp_time=0.0; self.lp_calls=0
    # ------------------------------------------------ atoms
    def atom(self,lo,hi,name='',defn=None):
        a=Atom(len(self.atoms),lo,hi,name)
        a.defn=defn
        self.atoms.append(a)
        return a
    def S(self,poly,lo=None,hi=None):
        """normalise into int or SymInt"""
        if not poly: return 0
        if len(poly)==1 and () in poly: return poly[()]
        l,h=self.interval(poly)
        if lo is not None and lo>l: l=lo
        if hi is not None and hi<h: h=hi
        if l==h: return l
        return SymInt(poly,l,h)
    def interval(self,poly):
        l=h=0
        at=self.atoms
        for m,c in poly.items():
            ml=mh=1
            for i in m:
                a=at[i]
                if a.lo>=0 and ml>=0: ml*=a.lo; mh*=a.hi
                else:
                    v=(ml*a.lo,ml*a.hi,mh*a.lo,mh*a.hi); ml,mh=min(v),max(v)
            if c>0: l+=c*ml; h+=c*mh
            else: l+=c*mh; h+=c*ml
        return l,h
    def poly(self,v):
        if isinstance(v,bool): return pconst(int(v))
        if isinstance(v,int): return pconst(v)
        if isinstance(v,SymInt): return v.poly
        if isinstance(v,(SymXor,SymMaskXor)): return self.poly(self.force(v))
        if isinstance(v,SymEq): return self.poly(self.eqatom(v))
        raise Unsupported('limb: not an integer: %r'%(v,))
    def rng(self,v):
        if isinstance(v,(int,bool)): return int(v),int(v)
        if isinstance(v,SymInt): return v.lo,v.hi
        if isinstance(v,(SymXor,SymMaskXor)): return 0,(1<<v.w)-1
        if isinstance(v,SymEq): return 0,1
        raise Unsupported('limb rng %r'%(v,))
    def isbool01(self,i):
        a=self.atoms[i]; return a.lo>=0 and a.hi<=1
    def pmul(self,a,b):
        if len(a)==1 and () in a: return pscale(b,a[()])
        if len(b)==1 and () in b: return pscale(a,b[()])
        if len(a)*len(b)>20000: raise Unsupported('polynomial product too large')
        r={}
        for m,c in a.items():
            for n,d in b.items():
                if not m: k=n
                elif not n: k=m
                else:
                    k=tuple(sorted(m+n,reverse=True))
                    # booleans are idempotent
                    if len(k)>1:
                        o=[k[0]]
                        for q in k[1:]:
                            if q==o[-1] and self.isbool01(q): continue
                            o.append(q)
                        k=tuple(o)
                v=r.get(k,0)+c*d
                if v: r[k]=v
                else: del r[k]
        return r
    def split(self,poly,k,lo=None,hi=None):
        """T = low + 2^k * high, 0 <= low < 2^k; returns (low, high) as values"""
        l,h=self.interval(poly)
        if lo is not None and lo>l: l=lo
        if hi is not None and hi<h: h=hi
        M=1<<k
        if l>=0 and h<M: return self.S(poly,l,h),0
        if l>=-1 and h<=0: return self.S(pscale(poly,-(M-1)),0,M-1),self.S(poly,l,h)
        A={};B={}
        for m,c in poly.items():
            q,r=divmod(c,M)
            if r==0: A[m]=q
            elif len(m)==0:
                if q: A[m]=q
                B[m]=r
            else: B[m]=c
        if not B: return 0,self.S(A,l>>k,h>>k)
        if A:
            bl,bh=self.interval(B)
            if bl>=0 and bh<M: return self.S(B,bl,bh),self.S(A)
        key=(k,tuple(sorted(B.items())))
        r=self.memo.get(key)
        if r is None:
            bl,bh=self.interval(B)
            if not A: bl,bh=max(bl,l),min(bh,h)
            if bl>=-1 and bh<=0:
                r=(self.S(pscale(B,-(M-1)),0,M-1),self.S(B,bl,bh)); self.memo[key]=r
            else:
                g=0
                for c in B.values(): g=math.gcd(g,c)
                tz=(g&-g).bit_length()-1
                if tz>0:
                    lo2,hi2=self.split({m:c>>tz for m,c in B.items()},k-tz)
                    r=(self.S(pscale(self.poly(lo2),1<<tz)),hi2); self.memo[key]=r
        if r is None:
            # try expanding definitions whose coefficient is not divisible
            E=dict(B)
            for _ in range(6):
                nd=[m for m,c in E.items() if c%M and m and self.atoms[m[0]].defn is not None and len(m)==1]
                if not nd: break
                m=max(nd); c=E.pop(m)
                E=padd(E,pscale(self.atoms[m[0]].defn,c))
                if len(E)>400: break
                if all(v%M==0 for v in E.values()):
                    r=(0,self.S({x:v//M for x,v in E.items()})); break
            if r is None:
                bl,bh=self.interval(B)
                if not A:
                    bl,bh=max(bl,l),min(bh,h)
                hl,hh=bl>>k,bh>>k
                if hl==hh:
                    hp=pconst(hl); a=None
                    dl,dh=max(0,bl-hl*M),min(M-1,bh-hl*M)
                    d=self.atom(dl,dh,'d',padd(B,pscale(hp,-M)))
                    r=(SymInt({(d.id,):1},dl,dh),hl)
                elif hl==-1 and hh==0:
                    a=self.atom(0,1,'borrow')
                    d=self.atom(0,M-1,'d',padd(B,{(a.id,):M})); a.partner=d.id
                    r=(SymInt({(d.id,):1},0,M-1),SymInt({(a.id,):-1},-1,0))
                else:
                    a=self.atom(hl,hh,'carry')
                    d=self.atom(0,M-1,'d',padd(B,{(a.id,):-M})); a.partner=d.id
                    r=(SymInt({(d.id,):1},0,M-1),SymInt({(a.id,):1},hl,hh))
            self.memo[key]=r
        lowv,highv=r
        if A: highv=self.S(padd(self.poly(highv),A),l>>k,h>>k)
        return lowv,highv
    # ------------------------------------------------ primitives
    def adc(self,ctx,x,y,c):
        cl,ch=self.rng(c)
        if cl<0 or ch>1: raise Unsupported('carry-in not 0/1')
        T=padd(padd(self.poly(x),self.poly(y)),self.poly(c))
        return self.split(T,64)
    def sbb(self,ctx,x,y,c):
        cl,ch=self.rng(c)
        if cl<0 or ch>1: raise Unsupported('borrow-in not 0/1')
        T=padd(padd(self.poly(x),self.poly(y),-1),self.poly(c),-1)
        l,h=self.interval(T)
        if l==-1 and 0<h<1<<63 and len(T)>1 and self.prove_range(T,0,None):
            # top word of a difference that cannot be negative: no borrow, and a named bounded word
            k=('nb',tuple(sorted(T.items())))
            a=self.memo.get(k)
            if a is None: a=self.memo[k]=self.atom(0,h,'n',T)
            return self.S({(a.id,):1}),0
        lo,hi=self.split(T,64)
        return lo,self.S(pscale(self.poly(hi),-1),0,1)
    def mulx(self,ctx,x,y):
        for u,v in((x,y),(y,x)):
            if isinstance(u,int) and u>=1<<32 and isinstance(v,SymInt):
                k=('name',tuple(sorted(v.poly.items())))
                if len(v.poly)>1 and k not in self.memo: self.memo[k]=self.atom(v.lo,v.hi,'n',v.poly)
                n=self.memo[k] if k in self.memo else self.atoms[next(iter(v.poly))[0]]
                self.dividends.append((n.id,len(self.atoms)))
                return self.split(pscale({(n.id,):1} if k in self.memo else v.poly,u),64)
        return self.split(self.pmul(self.named(x,self.poly(x)),self.named(y,self.poly(y))),64)
    def named(self,v,poly):
        """factor of a product: a multi-term polynomial gets a name, so that its range is known"""
        if not isinstance(v,SymInt) or len(poly)<2: return poly
        if self.interval(poly)[0]>=0 and all(c>0 for c in poly.values()): return poly
        k=('name',tuple(sorted(poly.items())))
        a=self.memo.get(k)
        if a is None:
            l,h=self.interval(poly)
            a=self.memo[k]=self.atom(max(l,v.lo),min(h,v.hi),'n',poly)
        return {(a.id,):1}
    def wrap(self,poly,ty):
        w,s=INT_TYPES[ty]
        if not s: return self.split(poly,w)[0]
        l,h=self.interval(poly)
        if -(1<<(w-1))<=l and h<(1<<(w-1)): return self.S(poly)
        lo,_=self.split(padd(poly,pconst(1<<(w-1))),w)
        return self.S(padd(self.poly(lo),pconst(-(1<<(w-1)))),-(1<<(w-1)),(1<<(w-1))-1)
    def maskof(self,v,ty):
        """v == all-ones * e with e boolean -> poly of e"""
        if not isinstance(v,SymInt): return None
        w,s=INT_TYPES[ty]
        for M in ((1<<w)-1,-1,):
            if M==-1:
                if not s: continue
                e=pscale(v.poly,-1)
            else:
                if any(c%M for c in v.poly.values()): continue
                e={m:c//M for m,c in v.poly.items()}
            l,h=self.interval(e)
            if l>=0 and h<=1: return e
        return None
    def mark(self,e):
        for m in e:
            for i in m: self.atoms[i].mask=True
    def force(self,v):
        if isinstance(v,SymMaskXor):
            if len(v.terms)==0: return 0
            if len(v.terms)==1: return self.S(self.pmul(v.c,self.poly(v.terms[0])))
        raise Unsupported('bitwise xor of unknown words')
    def binop(self,ctx,op,ty,a,b):
        if op in('Add','Sub','Mul','AddWithOverflow','SubWithOverflow','MulWithOverflow','AddUnchecked','SubUnchecked','MulUnchecked'):
            pa,pb=self.poly(a),self.poly(b)
            if op[0]=='M': pa,pb=self.named(a,pa),self.named(b,pb)
            T=padd(pa,pb) if op[0]=='A' else padd(pa,pb,-1) if op[0]=='S' else self.pmul(pa,pb)
            if op.endswith('WithOverflow'):
                l,h=self.interval(T)
                if fits(l,ty) and fits(h,ty): return (self.S(T),False)
                w,s=INT_TYPES[ty]
                L=-(1<<(w-1)) if s else 0; H=(1<<(w-s))-1
                if self.prove_range(T,L,H):
                    self.obl.append(('no-overflow',op)); return (self.S(T,L,H),False)
                return (LazyWrap(T,ty),SymRange(T,L,H))
            return self.wrap(T,ty)
        if op in('Shl','ShlUnchecked'):
            if not isinstance(b,int): raise Unsupported('symbolic shift')
            w=INT_TYPES[ty][0]
            return self.wrap(pscale(self.poly(a),1<<(b%w)),ty)
        if op in('Shr','ShrUnchecked'):
            if not isinstance(b,int): raise Unsupported('symbolic shift')
            w=INT_TYPES[ty][0]
            return self.split(self.poly(a),b%w,*self.rng(a))[1]
        if op in('Lt','Le','Gt','Ge'):
            pa,pb=self.poly(a),self.poly(b)
            if op=='Lt': T=padd(pa,pb,-1)
            elif op=='Gt': T=padd(pb,pa,-1)
            elif op=='Ge': T=padd(pa,pb,-1)
            else: T=padd(pb,pa,-1)
            neg=op in('Ge','Le')
            l,h=self.interval(T)
            if h<0: return not neg
            if l>=0: return neg
            k=max(h.bit_length(),(-l).bit_length())
            _,hi=self.split(T,k)       # -1 iff T<0
            e=pscale(self.poly(hi),-1)
            if neg: e=padd(pconst(1),e,-1)
            return self.tobool(self.S(e,0,1))
        if op in('Eq','Ne'):
            if ty=='bool':
                e=self.xor01(self.poly(a),self.poly(b))
                if op=='Eq': e=padd(pconst(1),e,-1)
                return self.tobool(self.S(e,0,1))
            T=padd(self.poly(a),self.poly(b),-1)
            v=self.S(T)
            if isinstance(v,int): return (v==0)==(op=='Eq')
            if v.lo>0 or v.hi<0: return op=='Ne'
            # boolean operand compared with 0/1
            if v.lo==0 and v.hi==1:
                return self.tobool(self.S(padd(pconst(1),T,-1) if op=='Eq' else T,0,1))
            if v.lo==-1 and v.hi==0:
                return self.tobool(self.S(padd(pconst(1),T) if op=='Eq' else pscale(T,-1),0,1))
            return SymEq(v,op=='Ne')
        if op in('BitAnd','BitOr','BitXor'): return self.bitop(ctx,op,ty,a,b)
        raise Unsupported('limb op %s'%op)
    def tobool(self,v):
        if isinstance(v,int): return bool(v)
        return v
    def xor01(self,a,b): return padd(padd(a,b),pscale(self.pmul(a,b),2),-1)
    def bitop(self,ctx,op,ty,a,b):
        w,s=(1,0) if ty=='bool' else INT_TYPES[ty]
        ones=1 if ty=='bool' else ((1<<w)-1 if not s else -1)
        if isinstance(b,(int,bool)): a,b=b,a
        if isinstance(a,(int,bool)):
            a=int(a)
            if op=='BitAnd':
                if a==0: return False if ty=='bool' else 0
                if a==ones: return b
                e=self.maskof(b,ty) if ty!='bool' else None
                if e is not None: self.mark(e); return self.S(pscale(e,a if a>=0 else a))
                if isinstance(b,SymMaskXor): raise Unsupported('and of xor')
                return self.andconst(a&((1<<w)-1),b,ty)
            if op=='BitOr':
                if a==0: return b
                if a==ones: return True if ty=='bool' else ones
                lo,hi=self.rng(b)
                if lo>=0:
                    tz=(a&-a).bit_length()-1
                    if hi<(1<<tz): return self.S(padd(self.poly(b),pconst(a)))
                    # clear then set
                    cl=self.andconst(((1<<w)-1)&~a,b,ty)
                    return self.S(padd(self.poly(cl),pconst(a)))
                raise Unsupported('or const')
            if op=='BitXor':
                if a==0: return b
                if isinstance(b,(SymXor,)): return SymXor(b.terms+[a],w)
                if a==ones: return self.unop(ctx,'Not',ty,b)
                e=self.maskof(b,ty) if ty!='bool' else None
                if e is not None:   # mask ^ const
                    self.mark(e)
                    return self.S(padd(pconst(a),pscale(e,(ones^a)-a)))
                # xor with const on a bounded value: x ^ 2^k etc
                lo,hi=self.rng(b)
                if lo>=0 and hi<=1 and a==1: return self.S(padd(pconst(1),self.poly(b),-1),0,1)
                return SymXor([a,b],w)
        if op=='BitXor':
            if isinstance(a,SymMaskXor) or isinstance(b,SymMaskXor):
                if isinstance(a,SymMaskXor): a,b=b,a
                # a ^ (c & (t1 ^ t2))
                if isinstance(a,(SymInt,int)):
                    ts=list(b.terms)
                    ka=self.key(a)
                    for i,t in enumerate(ts):
                        if self.key(t)==ka:
                            rest=ts[:i]+ts[i+1:]
                            if len(rest)==1:
                                diff=padd(self.poly(rest[0]),self.poly(a),-1)
                                r=padd(self.poly(a),self.pmul(b.c,diff))
                                la,ha=self.rng(a); lb,hb=self.rng(rest[0])
                                return self.S(r,min(la,lb),max(ha,hb))
                raise Unsupported('xor pattern')
            ts=[]
            for x in(a,b):
                if isinstance(x,SymXor): ts+=x.terms
                else: ts.append(x)
            # cancel equal terms
            out={}
            for t in ts:
                k=self.key(t)
                if k in out: del out[k]
                else: out[k]=t
            ts=list(out.values())
            if not ts: return 0
            if len(ts)==1: return ts[0]
            if len(ts)==2:
                x,y=ts
                lx,hx=self.rng(x); ly,hy=self.rng(y)
                if lx>=0 and hx<=1 and ly>=0 and hy<=1:
                    return self.tb(ty,self.S(self.xor01(self.poly(x),self.poly(y)),0,1))
                ex,ey=self.maskof(x,ty),self.maskof(y,ty)
                if ex is not None and ey is not None:
                    self.mark(ex); self.mark(ey)
                    return self.S(pscale(self.xor01(ex,ey),ones))
            return SymXor(ts,w)
        if op=='BitAnd':
            for x,y in((a,b),(b,a)):
                lx,hx=self.rng(x)
                if ty=='bool' or (lx>=0 and hx<=1 and self.rng(y)[1]<=1 and self.rng(y)[0]>=0):
                    return self.tb(ty,self.S(self.pmul(self.poly(a),self.poly(b)),0,1))
                e=self.maskof(x,ty)
                if e is not None:
                    self.mark(e)
                    if isinstance(y,SymXor): return SymMaskXor(e,y.terms,w)
                    ly,hy=self.rng(y)
                    return self.S(self.pmul(e,self.poly(y)),min(0,ly),max(0,hy))
            # equal
            if self.key(a)==self.key(b): return a
            raise Unsupported('and of two unknown words')
        if op=='BitOr':
            la,ha=self.rng(a); lb,hb=self.rng(b)
            if la>=0 and ha<=1 and lb>=0 and hb<=1:
                pa,pb=self.poly(a),self.poly(b)
                return self.tb(ty,self.S(padd(padd(pa,pb),self.pmul(pa,pb),-1),0,1))
            for x,y,hx,lx in((a,b,ha,la),(b,a,hb,lb)):
                py=self.poly(y)
                if py and lx>=0:
                    g=0
                    for c in py.values(): g=math.gcd(g,c)
                    tz=(g&-g).bit_length()-1
                    if hx<(1<<tz): return self.wrap(padd(self.poly(x),py),ty)
            if la>=0 and lb>=0:
                ex,ey=self.maskof(a,ty),self.maskof(b,ty)
                if ex is not None and ey is not None:
                    self.mark(ex); self.mark(ey)
                    return self.S(pscale(padd(padd(ex,ey),self.pmul(ex,ey),-1),ones))
            raise Unsupported('or of two unknown words')
        raise Unsupported(op)
    def tb(self,ty,v):
        if ty=='bool': return self.tobool(v)
        return v
    def key(self,v):
        if isinstance(v,int): return v
        if isinstance(v,SymInt): return tuple(sorted(v.poly.items()))
        return id(v)
    def andconst(self,mask,b,ty):
        """b & mask, mask made of runs of ones"""
        lo,hi=self.rng(b)
        p=self.poly(b)
        if lo<0:
            p=self.poly(self.split(p,INT_TYPES[ty][0])[0])
        r={}
        i=0
        runs=[]
        m=mask
        while m:
            tz=(m&-m).bit_length()-1
            i+=tz; m>>=tz
            n=((~m)&(m+1)).bit_length()-1
            runs.append((i,n)); i+=n; m>>=n
        if len(runs)>4: raise Unsupported('and with constant mask %r %x'%(b,mask))
        for i,n in runs:
            v=self.split(p,i)[1] if i else self.S(p)
            v=self.split(self.poly(v),n)[0]
            r=padd(r,pscale(self.poly(v),1<<i))
        return self.S(r,0)
    def unop(self,ctx,op,ty,a):
        if op=='Not':
            if ty=='bool':
                if isinstance(a,SymEq): return SymEq(a.e,not a.neg)
                return self.tobool(self.S(padd(pconst(1),self.poly(a),-1),0,1))
            w,s=INT_TYPES[ty]
            return self.S(padd(pconst((1<<w)-1 if not s else -1),self.poly(a),-1))
        if op=='Neg': return self.wrap(pscale(self.poly(a),-1),ty)
        raise Unsupported(op)
    def bnot(self,ctx,v):
        if isinstance(v,SymRange): return ('notrange',v)
        return self.unop(ctx,'Not','bool',v)
    def cast(self,ctx,a,fr,to):
        if isinstance(a,SymEq): a=self.eqatom(a,ctx)
        if isinstance(a,LazyWrap): a=self.wrap(a.T,a.ty)
        if isinstance(a,bool) or isinstance(a,int): return wrap_int(int(a),to)
        if fr=='bool': return a
        if isinstance(a,(SymXor,SymMaskXor)): a=self.force(a)
        # masks keep their shape through sign-changing casts
        if fr in INT_TYPES:
            e=self.maskof(a,fr)
            if e is not None:
                w,s=INT_TYPES[to]; fw,fs=INT_TYPES[fr]
                # value is all-ones*e in fr
                allones=-1 if fs else (1<<fw)-1
                return self.S(pscale(e,wrap_int(allones,to)))
        return self.wrap(a.poly,to)
    def intfn(self,ctx,op,ty,a):
        if op in('unsigned_abs','abs','abs_diff'):
            x=a[0] if op!='abs_diff' else self.S(padd(self.poly(a[0]),self.poly(a[1]),-1))
            l,h=self.rng(x)
            if l>=0: return x
            if h<=0:
                if op=='abs' and l<=-(1<<(INT_TYPES[ty][0]-1)): raise Refutable('abs may overflow',x)
                return self.S(pscale(self.poly(x),-1))
            x0=self.binop(ctx,'Lt',ty,x,0)
            neg=ctx.truth(x0,'sign')
            return self.S(pscale(self.poly(x),-1),0,-l) if neg else self.S(self.poly(x),0,h)
        raise Unsupported('limb: '+op)
    def eqatom(self,v,ctx=None):
        raise Unsupported('equality used as a number')
    def to_bytes(self,ctx,a,ty):
        w,s=INT_TYPES[ty]
        p=self.poly(a)
        if s: p=self.poly(self.split(p,w)[0])
        out=[]
        cur=self.S(p)
        for i in range(w//8-1):
            lo,cur=self.split(self.poly(cur),8)
            out.append(lo)
        out.append(cur)
        return out
    def from_bytes(self,ctx,b,ty):
        r={}
        for i,x in enumerate(b): r=padd(r,pscale(self.poly(x),1<<(8*i)))
        return self.wrap(r,ty)
    def branch(self,ctx,v,label):
        if isinstance(v,SymRange):
            # out of range?
            if self.prove_range(v.e,v.lo,v.hi): return False
            raise Refutable('possible overflow',v)
        if isinstance(v,SymEq):
            d=ctx.decide(2,'eq')
            # option 0: equal ; 1: not equal
            r=(d==0)
            if d==0: self.facts.append((v.e.poly,0,0)); self.assume_eq(v.e.poly)
            return r!=v.neg
        if isinstance(v,SymInt):
            if v.lo>=1: return True
            if v.hi<=0: return False
            d=ctx.decide(2,label)
            self.assume01(v.poly,d)
            return d==1
        raise Unsupported('branch on %r'%(v,))
    def assume_eq(self,poly): pass
    def assume01(self,poly,d):
        ms=[m for m in poly if m]
        if len(ms)==1 and len(ms[0])==1:
            i=ms[0][0]; c=poly[ms[0]]; k=poly.get((),0)
            val=Fraction(d-k,c)
            if val.denominator!=1: raise Infeasible()
            self.fix(i,int(val)); return
        self.facts.append((poly,d,d))
    def fix(self,i,val):
        a=self.atoms[i]
        if not a.lo<=val<=a.hi: raise Infeasible()
        a.fixed=val; a.lo=a.hi=val
    def check_assert(self,ctx,v,msg,f):
        if isinstance(v,tuple) and v[0]=='notrange':
            r=v[1]
            if self.prove_range(r.e,r.lo,r.hi):
                self.obl.append(('no-overflow',f.name)); return True
            raise Refutable('cannot prove: '+msg,r)
        if isinstance(v,SymInt):
            if v.lo>=1: return True
            if self.prove_range(v.poly,1,1): self.obl.append(('assert',f.name)); return True
            raise Refutable('cannot prove: '+msg,v)
        return ctx.truth(v,'assert')
    def proj(self,ctx,v,i):
        if isinstance(v,LazyWrap): raise Unsupported('proj')
        return Domain.proj(self,ctx,v,i)
    # ------------------------------------------------ reasoning
    def subst_fixed(self,P):
        ch=False
        for m in P:
            for i in m:
                if self.atoms[i].fixed is not None: ch=True; break
            if ch: break
        if not ch: return P
        r={}
        for m,c in P.items():
            k=[]
            for i in m:
                f=self.atoms[i].fixed
                if f is None: k.append(i)
                else: c*=f
            if c:
                k=tuple(k)
                v=r.get(k,0)+c
                if v: r[k]=v
                else: r.pop(k,None)
        return r
    def expand(self,P,frozen=(),stop=None,usemod=False):
        """substitute the definitions, latest first"""
        at=self.atoms
        P=self.subst_fixed(P)
        P=dict(P)
        idx={}
        heap=[]
        def isdef(i):
            a=at[i]
            return a.fixed is None and i not in frozen and (a.defn is not None or (usemod and a.mod is not None))
        def note(m):
            for i in m:
                if isdef(i):
                    s=idx.get(i)
                    if s is None:
                        idx[i]={m}; heapq.heappush(heap,-i)
                    else: s.add(m)
        for m in P: note(m)
        while heap:
            i=-heapq.heappop(heap)
            ms=idx.pop(i,None)
            if not ms: continue
            a=at[i]
            D=a.defn if a.defn is not None else a.mod
            D=self.subst_fixed(D)
            add={}
            for m in ms:
                c=P.pop(m,None)
                if c is None: continue
                l=list(m); l.remove(i)
                if l:
                    t=self.pmul({tuple(l):c},D)
                else: t=pscale(D,c)
                for k,v in t.items(): add[k]=add.get(k,0)+v
            for k,v in add.items():
                n=P.get(k,0)+v
                if n: P[k]=n; note(k)
                else: P.pop(k,None)
            if stop is not None: stop(P)
            if len(P)>60000: raise Unsupported('expansion too large')
        return P
    def bound(self,P):
        """rigorous interval of P by reverse elimination of carry atoms"""
        P=self.expand(P)
        at=self.atoms
        P={m:c for m,c in P.items()}
        frozen=set()
        guard=0
        while True:
            guard+=1
            if guard>3000: break
            cand=None
            for m in P:
                for i in m:
                    if at[i].partner is not None and at[i].fixed is None and len(m)==1:
                        if cand is None or i>cand: cand=i
            if cand is None: break
            d=at[at[cand].partner]
            c=P[(cand,)]
            hc=self.subst_fixed(d.defn).get((cand,))
            if hc is None or c%hc: break
            if d.id in frozen: break
            k=-(c//hc)
            D=self.expand(d.defn,frozen)
            # P = P - k'*(d - D) with the h coefficient cancelling:  P + k*(D - d)
            P=padd(P,pscale(D,k))
            P=padd(P,{(d.id,):-k})
            frozen.add(d.id)
        l,h=self.interval(P)
        for vid,S in self.inputs:
            c=P.get((vid,))
            if c:
                P=padd(padd(P,{(vid,):-c}),pscale(S,c))
                l2,h2=self.interval(P)
                l=max(l,l2); h=min(h,h2)
        return l,h
    def prove_range(self,P,lo,hi,lemmas=()):
        P=self.subst_fixed(P)
        l,h=self.interval(P)
        if (lo is None or l>=lo) and (hi is None or h<=hi): return True
        if len(P)<2000:
            try:
                l,h=self.bound(P)
                if (lo is None or l>=lo) and (hi is None or h<=hi): return True
            except Unsupported: pass
        ok=True
        if lo is not None: ok=self.lp(P,lo,None,lemmas)
        if ok and hi is not None: ok=self.lp(P,None,hi,lemmas)
        return ok
    def cone(self,P,maxatoms):
        at=self.atoms
        seen=set(); defs=set()
        heap=[]
        def add(i):
            if i in seen or at[i].fixed is not None: return
            seen.add(i); heapq.heappush(heap,-i)
        for m in P:
            for i in m: add(i)
        while heap and len(seen)<maxatoms:
            i=-heapq.heappop(heap)
            a=at[i]
            ds=[]
            if a.defn is not None: ds.append(i)
            if a.partner is not None: ds.append(a.partner)
            for d in ds:
                if d in defs: continue
                defs.add(d)
                add(d)
                for m in at[d].defn:
                    for j in m: add(j)
        for vid,S in self.inputs:
            if any(m and m[0] in seen for m in S):
                for m in S:
                    if m and at[m[0]].defn is not None and m[0] not in defs and at[m[0]].fixed is None: defs.add(m[0])
        return defs
    def lp(self,P,lo,hi,lemmas=(),maxatoms=260):
        """prove P>=lo or P<=hi by linear arithmetic over the definitions"""
        import z3,time
        t0=time.time()
        at=self.atoms
        P=self.subst_fixed(P)
        base=dict(P)
        for L,_,_ in list(lemmas)+self.facts:
            for m in L: base.setdefault(m,1)
        for sizes in (maxatoms,900):
            defs=self.cone(base,sizes)
            vars={}
            s=z3.Solver()
            s.set('timeout',20000)
            cons=[]
            def var(m):
                v=vars.get(m)
                if v is None:
                    v=z3.Real('m'+'_'.join(map(str,m)))
                    vars[m]=v
                    l,h=self.interval({m:1})
                    s.add(v>=l,v<=h)
                return v
            def lin(Q):
                ts=[]
                for m,c in Q.items():
                    if m: ts.append(c*var(m))
                    else: ts.append(z3.RealVal(c))
                return z3.Sum(ts) if ts else z3.RealVal(0)
            for d in defs:
                D=self.subst_fixed(at[d].defn)
                D=padd({(d,):1} if at[d].fixed is None else pconst(at[d].fixed),D,-1)
                s.add(lin(D)==0)
            for (L,l,h) in list(lemmas)+self.facts:
                L=self.subst_fixed(L)
                e=lin(L)
                if l is not None: s.add(e>=l)
                if h is not None: s.add(e<=h)
            e=lin(P)
            if lo is not None: s.add(e<=lo-1)
            else: s.add(e>=hi+1)
            r=s.check()
            self.lp_calls+=1
            if r==z3.unsat:
                self.lp_time+=time.time()-t0
                return True
            if len(defs)<sizes//3: break
        self.lp_time+=time.time()-t0
        return False

class LazyWrap(Sym):
    """result of an overflowing op before its assert has been checked"""
    __slots__=('T','ty')
    def __init__(self,T,ty): self.T=T; self.ty=ty

class Refutable(Exception):
    """an obligation could not be discharged (unknown, may be false)"""
    def __init__(self,msg,what=None): self.msg=msg; self.what=what; Exception.__init__(self,msg)
