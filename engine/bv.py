"""Bit-vector domain: machine words are z3 bit-vector terms, obligations are decided by z3."""
import z3,time
from interp import *

def simp(t):
    t=z3.simplify(t)
    return t

class BV(Sym):
    __slots__=('t',)
    def __init__(self,t): self.t=t
class BB(Sym):
    __slots__=('t',)
    def __init__(self,t): self.t=t

class BVDom(Domain):
    def __init__(self,contracts=None):
        Domain.__init__(self,contracts)
        self.pc=[]; self.time=0.0; self.calls=0; self.obl=[]
        self.timeout=60000
    def word(self,name,w): return BV(z3.BitVec(name,w))
    def bool(self,name): return BB(z3.Bool(name))
    def lift(self,v,ty):
        w=INT_TYPES[ty][0]
        if isinstance(v,BV): return v.t
        if isinstance(v,bool): return z3.BitVecVal(int(v),w)
        if isinstance(v,int): return z3.BitVecVal(v&((1<<w)-1),w)
        raise Unsupported('bv lift %r'%(type(v).__name__,))
    def liftb(self,v):
        if isinstance(v,BB): return v.t
        if isinstance(v,(bool,int)): return z3.BoolVal(bool(v))
        raise Unsupported('bv bool')
    def out(self,t,ty=None):
        t=simp(t)
        if z3.is_bv_value(t):
            n=t.as_long()
            if ty and INT_TYPES[ty][1]: n=wrap_int(n,ty)
            return n
        return BV(t)
    def outb(self,t):
        t=simp(t)
        if z3.is_true(t): return True
        if z3.is_false(t): return False
        return BB(t)
    def binop(self,ctx,op,ty,a,b):
        if ty=='bool':
            x,y=self.liftb(a),self.liftb(b)
            if op=='BitAnd': return self.outb(z3.And(x,y))
            if op=='BitOr': return self.outb(z3.Or(x,y))
            if op in('BitXor','Ne'): return self.outb(z3.Xor(x,y))
            if op=='Eq': return self.outb(x==y)
            raise Unsupported(op)
        if ty not in INT_TYPES: raise Unsupported('bv type '+str(ty))
        w,s=INT_TYPES[ty]
        x=self.lift(a,ty)
        if op.startswith('Sh'):
            if isinstance(b,int): y=z3.BitVecVal(b%w,w)
            else:
                y=b.t
                if y.size()>w: y=z3.Extract(w-1,0,y)
                elif y.size()<w: y=z3.ZeroExt(w-y.size(),y)
                y=y&(w-1)
            if op.startswith('Shl'): return self.out(x<<y,ty)
            return self.out((x>>y) if s else z3.LShR(x,y),ty)
        y=self.lift(b,ty)
        if op in('Add','AddUnchecked'): return self.out(x+y,ty)
        if op in('Sub','SubUnchecked'): return self.out(x-y,ty)
        if op in('Mul','MulUnchecked'): return self.out(x*y,ty)
        if op=='BitAnd': return self.out(x&y,ty)
        if op=='BitOr': return self.out(x|y,ty)
        if op=='BitXor': return self.out(x^y,ty)
        if op=='Eq': return self.outb(x==y)
        if op=='Ne': return self.outb(x!=y)
        if op=='Lt': return self.outb(x<y if s else z3.ULT(x,y))
        if op=='Le': return self.outb(x<=y if s else z3.ULE(x,y))
        if op=='Gt': return self.outb(x>y if s else z3.UGT(x,y))
        if op=='Ge': return self.outb(x>=y if s else z3.UGE(x,y))
        if op=='Div': return self.out(x/y if s else z3.UDiv(x,y),ty)
        if op=='Rem': return self.out(z3.SRem(x,y) if s else z3.URem(x,y),ty)
        if op.endswith('WithOverflow'):
            k=op[0]
            ext=z3.SignExt if s else z3.ZeroExt
            if k=='M': X,Y=ext(w,x),ext(w,y); T=X*Y; n=2*w
            else:
                X,Y=ext(2,x),ext(2,y); T=X+Y if k=='A' else X-Y; n=w+2
            r=z3.Extract(w-1,0,T)
            ov=T!=(z3.SignExt(n-w,r) if s else z3.ZeroExt(n-w,r))
            return (self.out(r,ty),self.outb(ov))
        raise Unsupported('bv '+op)
    def unop(self,ctx,op,ty,a):
        if ty=='bool': return self.outb(z3.Not(self.liftb(a)))
        x=self.lift(a,ty)
        return self.out(~x if op=='Not' else -x,ty)
    def bnot(self,ctx,v): return self.outb(z3.Not(self.liftb(v)))
    def cast(self,ctx,a,fr,to):
        w,s=INT_TYPES[to]
        if isinstance(a,BB): return self.out(z3.If(a.t,z3.BitVecVal(1,w),z3.BitVecVal(0,w)),to)
        fw,fs=INT_TYPES[fr]
        x=self.lift(a,fr)
        if w<fw: x=z3.Extract(w-1,0,x)
        elif w>fw: x=z3.SignExt(w-fw,x) if fs else z3.ZeroExt(w-fw,x)
        return self.out(x,to)
    def adc(self,ctx,x,y,c):
        T=z3.ZeroExt(8,self.lift(x,'u64'))+z3.ZeroExt(8,self.lift(y,'u64'))+z3.If(self.lift(c,'u8')==0,z3.BitVecVal(0,72),z3.BitVecVal(1,72))
        return self.out(z3.Extract(63,0,T)),self.out(z3.Extract(71,64,T))
    def sbb(self,ctx,x,y,c):
        T=z3.ZeroExt(8,self.lift(x,'u64'))-z3.ZeroExt(8,self.lift(y,'u64'))-z3.If(self.lift(c,'u8')==0,z3.BitVecVal(0,72),z3.BitVecVal(1,72))
        return self.out(z3.Extract(63,0,T)),self.out(z3.ZeroExt(7,z3.Extract(64,64,T)))
    def mulx(self,ctx,x,y):
        T=z3.ZeroExt(64,self.lift(x,'u64'))*z3.ZeroExt(64,self.lift(y,'u64'))
        return self.out(z3.Extract(63,0,T)),self.out(z3.Extract(127,64,T))
    def to_bytes(self,ctx,a,ty):
        x=self.lift(a,ty); w=INT_TYPES[ty][0]
        return [self.out(z3.Extract(8*i+7,8*i,x)) for i in range(w//8)]
    def from_bytes(self,ctx,b,ty):
        return self.out(z3.Concat(*[self.lift(x,'u8') for x in reversed(b)]),ty)
    def check(self,*cs):
        t0=time.time()
        s=z3.Solver(); s.set('timeout',self.timeout)
        for c in self.pc: s.add(c)
        for c in cs: s.add(c)
        r=s.check(); self.time+=time.time()-t0; self.calls+=1
        return r,(s.model() if r==z3.sat else None)
    def branch(self,ctx,v,label):
        t=v.t if isinstance(v,BB) else v.t!=0
        r1=self.check(t)[0]; 
        if r1==z3.unsat: return False
        r2=self.check(z3.Not(t))[0]
        if r2==z3.unsat: return True
        if r1==z3.unknown or r2==z3.unknown: raise Unsupported('solver timeout on branch')
        if ctx.decide(2,label)==0: self.pc.append(t); return True
        self.pc.append(z3.Not(t)); return False
    def switch(self,ctx,v,cases,ty):
        if ty=='bool': return 1 if self.branch(ctx,v,'switch') else 0
        x=self.lift(v,ty)
        for c in cases:
            if self.branch(ctx,BB(simp(x==z3.BitVecVal(c,x.size()))),'case'): return wrap_int(c,ty)
        w=INT_TYPES[ty][0]
        return -(1<<w)+min(-1,-max([0]+list(cases)))  # a value matching none
    def prove(self,goal):
        """goal: z3 Bool. returns ('proved'|'refuted'|'unknown', model)"""
        g=simp(goal)
        if z3.is_true(g): return 'proved',None
        r,m=self.check(z3.Not(g))
        if r==z3.unsat: return 'proved',None
        if r==z3.sat: return 'refuted',m
        return 'unknown',None
