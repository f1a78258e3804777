"""Exponent domain: a field element is x^E for a fixed unknown x and an exponent E that is an integer
polynomial in the unknown bits of the exponent argument (0^0 = 1, so the laws used hold for x = 0 as well).
Machine words are z3 terms over those bits; a constant-time selection controlled by a bit b is the exact
interpolation E + b*(E'-E)."""
import z3,itertools
from interp import *
from bv import BVDom,BV,BB,simp
from limb import padd,pscale,pconst

class PE(Sym):
    __slots__=('e',)
    def __init__(self,e): self.e=e

class PowDom(BVDom):
    def __init__(self,contracts,one):
        BVDom.__init__(self,contracts)
        self.bits=[]; self.asg={}; self.one=one; self.canon=None; self.cuts=None; self.key=None
    def bit(self,name):
        b=self.bool0.get(name)
        if b is None: b=self.bool0[name]=z3.Bool(name)
        self.bits.append(b); return b
    def wordof(self,bits,w):
        t=z3.BitVecVal(0,w) if not bits else None
        parts=[z3.If(b,z3.BitVecVal(1,1),z3.BitVecVal(0,1)) if not isinstance(b,int) else z3.BitVecVal(b,1) for b in reversed(bits)]
        parts=[z3.BitVecVal(0,1)]*(w-len(parts))+parts
        return self.out(z3.Concat(*parts) if len(parts)>1 else parts[0])
    def vars_of(self,t):
        r=self.vcache.get(t.get_id())
        if r is not None: return r[1]
        r=self.vars_of0(t); self.vcache[t.get_id()]=(t,r)    # keeps t alive, so the id stays valid
        return r
    vcache={}; bcache={}; bkeep=[]; bool0={}
    def vars_of0(self,t):
        out={}; seen=set(); st=[t]
        while st:
            x=st.pop()
            if x.get_id() in seen: continue
            seen.add(x.get_id())
            if z3.is_const(x) and x.decl().kind()==z3.Z3_OP_UNINTERPRETED: out[x.decl().name()]=x
            st.extend(x.children())
        return out
    def tsub(self,t):
        vs=self.vars_of(t)
        s=[(v,z3.BoolVal(self.asg[n])) for n,v in vs.items() if n in self.asg]
        return simp(z3.substitute(t,*s)) if s else t
    def table(self,t,limit=4):
        """value of t for each assignment of its free bits"""
        t=self.tsub(simp(t))
        vs=self.vars_of(t); ns=sorted(vs)
        if len(ns)>limit: raise Unsupported('control word depends on %d bits'%len(ns))
        r={}
        for a in itertools.product((False,True),repeat=len(ns)):
            u=simp(z3.substitute(t,*[(vs[n],z3.BoolVal(x)) for n,x in zip(ns,a)])) if ns else t
            r[a]=u.as_long() if z3.is_bv_value(u) else z3.is_true(u)
        return ns,r
    def indicator(self,ns,tab,val):
        """polynomial (over bits) that is 1 iff the table has value val"""
        P={}
        for a,v in tab.items():
            if v!=val: continue
            q={():1}
            for n,x in zip(ns,a):
                f={(n,):1} if x else {():1,(n,):-1}
                o={}
                for m,c in q.items():
                    for m2,c2 in f.items():
                        k=tuple(sorted(set(m)|set(m2))); o[k]=o.get(k,0)+c*c2
                q={k:c for k,c in o.items() if c}
            P=padd(P,q)
        return P
    def bmul(self,p,q):
        o={}
        for m,c in p.items():
            for m2,c2 in q.items():
                k=tuple(sorted(set(m)|set(m2))); o[k]=o.get(k,0)+c*c2
        return {k:c for k,c in o.items() if c}
    def esub(self,e):
        if not self.asg: return e
        o={}
        for m,c in e.items():
            k=[]
            for n in m:
                if n in self.asg:
                    if not self.asg[n]: break
                else: k.append(n)
            else:
                k=tuple(k); o[k]=o.get(k,0)+c
        return {k:c for k,c in o.items() if c}
    def maskpoly(self,ctl):
        """0/1 polynomial of a control word"""
        if isinstance(ctl,int):
            if ctl==0: return {}
            if ctl==0xFFFFFFFF: return {():1}
            raise Refuted('control word %x is neither 0 nor all-ones'%ctl)
        ns,tab=self.table(ctl.t)
        if any(v not in(0,0xFFFFFFFF) for v in tab.values()): raise Refuted('control word is neither 0 nor all-ones')
        return self.indicator(ns,tab,0xFFFFFFFF)
    # forking on exponent bits
    def fork(self,ctx,t):
        ns,tab=self.table(t,6)
        for n in ns: self.asg[n]=ctx.decide(2,'bit')==1
        t=self.tsub(simp(t))
        return t
    def only(self,t,vals):
        """the values among vals (None: any other) that t can take under the current assignment"""
        t=self.tsub(simp(t)); s=z3.Solver(); s.set('timeout',5000); out=[]
        for v in vals:
            s.push()
            if v is None: s.add(*[t!=x for x in vals if x is not None])
            else: s.add(t==v)
            if s.check()!=z3.unsat: out.append(v)
            s.pop()
        return out
    def branch(self,ctx,v,label):
        if len(self.vars_of(self.tsub(simp(v.t))))>6:
            t=self.tsub(simp(v.t))
            one,zero=(z3.BoolVal(True),z3.BoolVal(False)) if z3.is_bool(t) else (None,z3.BitVecVal(0,t.size()))
            s=z3.Solver(); s.set('timeout',5000)
            s.push(); s.add(t==zero); r0=s.check(); s.pop()
            if r0==z3.unsat: return True
            s.add(t!=zero)
            if s.check()==z3.unsat: return False
        t=self.fork(ctx,v.t)
        if z3.is_bv_value(t): return t.as_long()!=0
        return z3.is_true(t)
    def switch(self,ctx,v,cases,ty):
        if isinstance(v,BB): return 1 if self.branch(ctx,v,'') else 0
        if len(self.vars_of(self.tsub(simp(v.t))))>6:
            o=self.only(v.t,list(cases)+[None])
            if len(o)==1:
                if o[0] is None:
                    n=max(cases)+1
                    while n in cases: n+=1
                    return n
                return o[0]
        t=self.fork(ctx,v.t)
        n=t.as_long()
        return wrap_int(n,ty) if ty in INT_TYPES else n
    def concretize_index(self,ctx,i):
        return self.fork(ctx,i.t).as_long()
    def check_assert(self,ctx,v,msg,f):
        t=self.tsub(simp(v.t))
        if z3.is_true(t): return True
        s=z3.Solver(); s.set('timeout',10000); s.add(z3.Not(t))
        if s.check()==z3.unsat: return True
        return self.branch(ctx,v,'assert')
    def big_tobytes(self,ctx,x,le):
        n=max(1,(len(x.bits)+7)//8); b=list(x.bits)+[0]*(8*n-len(x.bits))
        key=tuple(("c",t) if isinstance(t,int) else t.get_id() for t in b)
        if key not in self.bcache: self.bkeep.append(list(b)); self.bcache[key]=[self.wordof(b[8*i:8*i+8],8) for i in range(n)]
        bs=self.bcache[key]
        return VecVal(bs if le else bs[::-1])
    def bigbits(self,ctx,x): return len(x.bits)
    def bigsh(self,ctx,op,x,y):
        if op not in('shl','shr') or not isinstance(y,int): raise Unsupported('shift')
        return type(x)(list(x.bits)[y:] if op=='shr' else [0]*y+list(x.bits),x.names)
    def bigbit(self,ctx,x,i): return (x.bits[i] if i<len(x.bits) else 0) if isinstance(i,int) else None
    def intfn(self,ctx,op,ty,a):
        w=INT_TYPES[ty][0]
        if op=='leading_zeros':
            # constant leading bits are known; fork on the leading unknown ones
            for i in range(w-1,-1,-1):
                t=simp(z3.Extract(i,i,a[0].t))
                t=self.fork(ctx,t)
                if t.as_long(): return w-1-i
            return w
        raise Unsupported(op)

def pow_contracts(prefix,N=None):
    C={}
    def get(ctx,v):
        if isinstance(v,Ref): v=ctx.load(v)
        if isinstance(v,PE): return v.e
        if v==ctx.dom.one: return {}
        raise Unsupported('element that is not a power of the base')
    def put(ctx,r,e): ctx.store(r,PE(ctx.dom.esub(e))); return ()
    C[prefix+'set_mul']=lambda ctx,a:put(ctx,a[0],padd(get(ctx,a[0]),get(ctx,a[1])))
    C[prefix+'set_square']=lambda ctx,a:put(ctx,a[0],pscale(get(ctx,a[0]),2))
    C[prefix+'square']=lambda ctx,a:PE(pscale(get(ctx,a[0]),2))
    def cond(ctx,a):
        m=ctx.dom.maskpoly(a[2]); x=get(ctx,a[0]); y=get(ctx,a[1])
        return put(ctx,a[0],padd(x,ctx.dom.bmul(m,padd(y,x,-1))))
    C[prefix+'set_cond']=cond
    def sel(ctx,a,b,c):
        m=ctx.dom.maskpoly(c); x=get(ctx,a); y=get(ctx,b)
        return padd(x,ctx.dom.bmul(m,padd(y,x,-1)))
    C[prefix+'select']=lambda ctx,a:PE(sel(ctx,a[0],a[1],a[2]))
    C[prefix+'set_select']=lambda ctx,a:put(ctx,a[0],sel(ctx,a[1],a[2],a[3]))
    return C
