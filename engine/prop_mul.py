"""Scalar multiplication.  The Montgomery ladder is verified against contracts of its two steps (x-only doubling and
differential addition, proved below): every (X:Z) pair carries the multiple of P it represents, an integer polynomial in
the scalar's bits, so a run over a bit length covers every scalar of that length at once.  The y-recovery is verified
over all cases of ([n]P,[n+1]P)."""
import z3
from spec import *
from obl import *
from powdom import *
from limb import padd,pconst,pscale
from prop_ec import *
from prop_pow import bits_poly
MI=CV+'mul_into::'

class XC(Sym):
    """coordinate c ('X' or 'Z') of a representation of x([k]P); k None: unconstrained"""
    __slots__=('k','c')
    def __init__(self,k,c): self.k=k; self.c=c
class MulDom(Field):
    def __init__(self,contracts):
        Field.__init__(self,P,'fp2',contracts); self.b=PowDom({},None); self.mat={}; self.case=None
    # machine words are delegated to the bit-vector part
    def isb(self,*a): return any(isinstance(x,(BV,BB)) for x in a)
    def binop(self,ctx,op,ty,a,b):
        return self.b.binop(ctx,op,ty,a,b) if self.isb(a,b) else Field.binop(self,ctx,op,ty,a,b)
    def unop(self,ctx,op,ty,a): return self.b.unop(ctx,op,ty,a)
    def bnot(self,ctx,v): return self.b.bnot(ctx,v)
    def cast(self,ctx,a,fr,to): return self.b.cast(ctx,a,fr,to) if self.isb(a) else Field.cast(self,ctx,a,fr,to)
    def branch(self,ctx,v,l): return self.b.branch(ctx,v,l)
    def switch(self,ctx,v,c,ty): return self.b.switch(ctx,v,c,ty)
    def check_assert(self,ctx,v,m,f): return self.b.check_assert(ctx,v,m,f) if self.isb(v) else Field.check_assert(self,ctx,v,m,f)
    def concretize_index(self,ctx,i): return self.b.concretize_index(ctx,i)
    def intfn(self,ctx,op,ty,a): return self.b.intfn(ctx,op,ty,a)
    def to_bytes(self,ctx,a,ty): return self.b.to_bytes(ctx,a,ty)
    def from_bytes(self,ctx,a,ty): return self.b.from_bytes(ctx,a,ty)
    # ladder coordinates
    def fe(self,v):
        if isinstance(v,XC): return self.materialise(v)
        return Field.fe(self,v)
    def xc(self,v,comp):
        """the ladder view of a value"""
        if isinstance(v,XC):
            if v.c!=comp: raise Unproved('X and Z coordinates mixed up')
            return v
        if not isinstance(v,FE): v=Field.fe(self,v)
        if v is self.Prep[0] and comp=='X' or v is self.Prep[2] and comp=='Z': return XC(pconst(1),comp)
        if self.equal(v,self.const(1 if comp=='X' else 0)): return XC({},comp)
        for k,c in((pconst(1),0),):
            if self.equal(v,self.Prep[0 if comp=='X' else 2]): return XC(k,comp)
        raise Unsupported('value that is not a ladder coordinate')
    def materialise(self,v):
        k=None if v.k is None else frozenset(self.b.esub(v.k).items())
        if (k,v.c) in self.mat: return self.mat[(k,v.c)]
        if k is not None and not self.junk:
            for want,(X,Z) in self.case:
                if frozenset(self.b.esub(want).items())==k:
                    self.mat[(k,'X')]=X; self.mat[(k,'Z')]=Z; return self.mat[(k,v.c)]
        if not self.junk: raise Unproved('uses the x-coordinate of a multiple that is neither n nor n+1: %s'%str(dict(k) if k is not None else None)[:80])
        self.fresh+=1; f=self.var('j%d'%self.fresh); self.mat[(k,v.c)]=f; return f

def mul_contracts():
    C=C2(); ld=lambda ctx,v: ctx.load(v) if isinstance(v,Ref) else v
    base=dict(C)
    def condswap(ctx,a):
        d=ctx.dom; x,y=ctx.load(a[0]),ctx.load(a[1])
        if not isinstance(x,XC) and not isinstance(y,XC) and isinstance(a[2],int) : return base[FP2+'condswap'](ctx,a)
        if isinstance(a[2],int):
            if mask(a[2]): ctx.store(a[0],y); ctx.store(a[1],x)
            return ()
        m=d.b.maskpoly(a[2])
        comp=x.c if isinstance(x,XC) else y.c if isinstance(y,XC) else None
        if comp is None:
            for c in 'XZ':
                try: d.xc(x,c); d.xc(y,c); comp=c; break
                except Unsupported: pass
            else: raise Unsupported('symbolic swap')
        x,y=d.xc(x,comp),d.xc(y,comp)
        if x.k is None or y.k is None: n1=n2=None
        else:
            df=d.b.bmul(m,padd(y.k,x.k,-1)); n1,n2=padd(x.k,df),padd(y.k,df,-1)
        ctx.store(a[0],XC(n1,comp)); ctx.store(a[1],XC(n2,comp)); return ()
    C[FP2+'condswap']=condswap
    def pair(ctx,rx,rz):
        d=ctx.dom; x,z=d.xc(ld(ctx,rx),'X'),d.xc(ld(ctx,rz),'Z')
        if x.k!=z.k: raise Unproved('X and Z of different points')
        return x.k
    def put(ctx,rx,rz,k):
        ctx.store(rx,XC(k,'X')); ctx.store(rz,XC(k,'Z')); return ()
    def curve_ok(ctx,c):
        c=ld(ctx,c)
        if c!=ctx.dom.E: raise Unproved('ladder step on another curve')
    def xdbl(ctx,a):
        curve_ok(ctx,a[0]); k=pair(ctx,a[1],a[2]); return put(ctx,a[1],a[2],None if k is None else pscale(k,2))
    C[MI+'xdbl']=xdbl
    def xdblc(ctx,a):
        curve_ok(ctx,a[0]); k=pair(ctx,a[1],a[2]); k=None if k is None else pscale(k,2); return (XC(k,'X'),XC(k,'Z'))
    C[CV+'x_dbl_coords']=xdblc
    def xadd(ctx,xp,zp,a):
        d=ctx.dom; k0=pair(ctx,a[0],a[1]); k1=pair(ctx,a[2],a[3])
        if d.junk or k0 is None or k1 is None: return put(ctx,a[2],a[3],None)
        if not d.equal(d.mul(xp,d.fe(d.Prep[2])),d.mul(zp,d.fe(d.Prep[0]))) or d.known(d.norm(zp.n))[0]!=1: raise Unproved('differential addition with the wrong difference')
        df=padd(k1,k0,-1)
        if d.b.bmul(df,df)!={():1}: raise Unproved('differential addition of points that do not differ by P')
        return put(ctx,a[2],a[3],padd(k0,k1))
    C[MI+'xadd']=lambda ctx,a:(curve_ok(ctx,a[0]),xadd(ctx,ctx.dom.fe(ld(ctx,a[1])),ctx.dom.fe(ld(ctx,a[2])),a[3:]))[1]
    C[MI+'xadd_aff']=lambda ctx,a:(curve_ok(ctx,a[0]),xadd(ctx,ctx.dom.fe(ld(ctx,a[1])),ctx.dom.const(1),a[2:]))[1]
    # selections controlled by a symbolic bit fork on it
    def forked(name,i):
        h=base[FP2+name]
        def g(ctx,a):
            a=list(a)
            if not isinstance(a[i],int): a[i]=ctx.dom.b.fork(ctx,a[i].t).as_long()
            return h(ctx,a)
        return g
    for nm,i in(('set_cond',2),('set_condneg',1),('set_select',3),('select',2)): C[FP2+nm]=forked(nm,i)
    return C

def xof(d,p,w): return (d.mul(p[0],w),w)
def mul_cases():
    """(label, build) : build(d,N) -> A, P, expected [n]P, [(multiple, representation)]; N,N1 exponent polynomials"""
    def inf(d,N): return d.var('A'),infinite(d,'P'),None,None
    def o2(k):
        def f(d,N):
            A,x=two_torsion(d,'',k); p=finite(d,A,'P',x=x,y=d.const(0)); return A,p,'parity',None
        return f
    def W(d,n): return d.var('w'+n,nonzero=True)
    def gen(d):
        A=d.var('A'); p=finite(d,A,'P'); nonzero_y(d,A,p); return A,p
    def N1(N): return padd(N,pconst(1))
    def c3(d,N):
        A,p=gen(d); return A,p,None,[(N,(W(d,'0'),d.const(0))),(N1(N),xof(d,p.aff,W(d,'1')))]
    def c4(d,N):
        A,p=gen(d); return A,p,neg(d,p.aff),[(N,xof(d,p.aff,W(d,'0'))),(N1(N),(W(d,'1'),d.const(0)))]
    def c5(d,N):
        A,p=gen(d); q=dbl(d,A,p.aff); d.assume_nz(d.norm(d.sub(q[0],p.aff[0]).n))
        return A,p,p.aff,[(N,xof(d,p.aff,W(d,'0'))),(N1(N),xof(d,q,W(d,'1')))]
    def order3(d):
        x=d.var('xP',nonzero=True); x2=d.mul(x,x)
        A=d.mul(d.sub(d.sub(d.const(1),d.scale(x2,6)),d.scale(d.mul(x2,x2),3)),d.inv(d.scale(d.mul(x2,x),4)))
        w=rhs(d,A,x); y=d.var('yP'); d.R.sq[max(d.R.vars(y.n))]=None
        return x,A,w
    def c53(d,N):
        # order three: 3x^4+4Ax^3+6x^2-1=0, y^2=(x^2-1)^2/(4x): take x=s^2
        s=d.var('s',nonzero=True); x=d.mul(s,s); x2=d.mul(x,x)
        A=d.mul(d.sub(d.sub(d.const(1),d.scale(x2,6)),d.scale(d.mul(x2,x2),3)),d.inv(d.scale(d.mul(x2,x),4)))
        y=d.mul(d.sub(x2,d.const(1)),d.inv(d.scale(s,2))); d.assume_nz(d.sub(x2,d.const(1)).n)
        p=finite(d,A,'P',x=x,y=y); return A,p,p.aff,[(N,xof(d,p.aff,W(d,'0'))),(N1(N),xof(d,p.aff,W(d,'1')))]
    def c6(d,N):
        A,p=gen(d); q=finite(d,A,'Q'); dx=d.sub(q.aff[0],p.aff[0]); d.assume_nz(dx.n)
        lam=d.mul(d.sub(q.aff[1],p.aff[1]),d.inv(dx)); s=chord(d,A,p.aff,q.aff,lam)
        d.assume_nz(d.norm(d.sub(s[0],p.aff[0]).n))
        return A,p,q.aff,[(N,xof(d,q.aff,W(d,'0'))),(N1(N),xof(d,s,W(d,'1')))]
    def c7(d,N):
        A,p=gen(d); q=neg(d,dbl(d,A,p.aff)); d.assume_nz(d.norm(d.sub(q[0],p.aff[0]).n))
        return A,p,q,[(N,xof(d,q,W(d,'0'))),(N1(N),xof(d,p.aff,W(d,'1')))]
    return [('P infinite',inf),('P=(0,0)',o2(0)),('P of order two, x<>0',o2(1)),('[n]P infinite',c3),('[n]P=-P',c4),('[n]P=P, order not three',c5),
            ('[n]P=P, order three',c53),('[n]P generic',c6),('[n]P=-[2]P',c7)]
LENS_ALL=list(range(0,25))+[31,32,33,63,64,65,127,128,129]
LENS_BIG=[255,256,257,634,635]

def ladder_run(name,into,lens,cases):
    fn=CV+name
    def run(env,res):
        f=env.fn(fn); out=[]; C=mul_contracts()
        for L in lens:
            extra=[0,1] if L<25 else [0]
            for ex in extra:
                nb=(L+7)//8+ex
                names=['e%d'%i for i in range(8*nb)]
                N=bits_poly(names[:L])
                for lab,build in (cases if L else cases[:4]):   # n=0: [n]P is infinite
                    lab2='%d bits%s, %s'%(L,' in a longer string' if ex else '',lab)
                    def mk(ctx):
                        d=ctx.dom
                        A,p,w,case=build(d,N); ctx.w=w; ctx.p=p
                        d.Prep=p.rep; d.case=case; d.junk=case is None
                        # conditions on n that the case implies are left to the y-recovery: they only restrict n
                        d.E=curve(d,A)
                        bs=tuple(d.b.wordof([d.b.bit(n) for n in names[8*i:8*i+8]],8) for i in range(nb))
                        ctx.cp=Cell(p.rep); ctx.c3=Cell((d.var('a'),d.var('b'),d.var('c')))
                        return [d.E]+([Ref(ctx.c3)] if into else [])+[Ref(ctx.cp),Ref(Cell(bs),(),(0,nb)),L]
                    for o in explore(env.crate,lambda:MulDom(dict(C)),f,mk):
                        res.paths+=1; note(res,o.ctx)
                        if o.kind!='return': out.append((lab2+': no panic',False,o.msg)); continue
                        ctx=o.ctx; d=ctx.dom; w=ctx.w
                        if w=='parity':
                            if L==0: w=None
                            else:
                                b=d.b.asg.get('e0')
                                if b is None: out.append((lab2+': depends on the parity of n',False,'')); continue
                                w=ctx.p.aff if b else None
                        for c in check(ctx,lab2,ctx.c3.v if into else o.ret,w): out.append(c+('',))
                        out.append((lab2+': operand unchanged',all(a is b for a,b in zip(ctx.cp.v,ctx.p.rep)),''))
        return out
    return run

class Gk(Sym):
    """abstract point [k]P, k a polynomial in the scalar's bits"""
    __slots__=('k',)
    def __init__(self,k): self.k=k
def group_contracts():
    """contracts of the group operations on abstract multiples"""
    C={}; ld=lambda ctx,v: ctx.load(v) if isinstance(v,Ref) else v
    def k(ctx,v):
        v=ld(ctx,v)
        if isinstance(v,Gk): return v.k
        if isinstance(v,tuple): return {}     # the constant point at infinity (checked by its own obligation)
        raise Unsupported('not a point')
    def st(ctx,r,e): ctx.store(r,Gk(e)); return ()
    C[CV+'add']=lambda ctx,a:Gk(padd(k(ctx,a[1]),k(ctx,a[2])))
    C[CV+'sub']=lambda ctx,a:Gk(padd(k(ctx,a[1]),k(ctx,a[2]),-1))
    C[CV+'add_into']=lambda ctx,a:st(ctx,a[1],padd(k(ctx,a[2]),k(ctx,a[3])))
    C[CV+'addto']=lambda ctx,a:st(ctx,a[1],padd(k(ctx,a[1]),k(ctx,a[2])))
    C[CV+'double']=lambda ctx,a:Gk(pscale(k(ctx,a[1]),2))
    C[CV+'double_into']=lambda ctx,a:st(ctx,a[1],pscale(k(ctx,a[2]),2))
    C[CV+'double_self']=lambda ctx,a:st(ctx,a[1],pscale(k(ctx,a[1]),2))
    C[CV+'double_iter']=lambda ctx,a:Gk(pscale(k(ctx,a[1]),1<<a[2]))
    def scal(ctx,bs,bl):
        """value of the first bl bits of a byte string of bit terms"""
        d=ctx.dom
        if not isinstance(bl,int): raise Unsupported('symbolic bit length')
        n={}
        bs=ctx.load(bs) if isinstance(bs,Ref) else bs
        for i in range(bl):
            b=bs[i>>3]
            if isinstance(b,int):
                if b>>(i&7)&1: n=padd(n,pconst(1<<i))
                continue
            ns,tab=d.table(z3.Extract(i&7,i&7,b.t))
            n=padd(n,pscale(d.indicator(ns,tab,1),1<<i))
        return n
    C[CV+'mul_into']=lambda ctx,a:st(ctx,a[1],ctx.dom.bmul(k(ctx,a[2]),scal(ctx,a[3],a[4])))
    C[CV+'mul']=lambda ctx,a:Gk(ctx.dom.bmul(k(ctx,a[1]),scal(ctx,a[2],a[3])))
    return C

def c09(crate):
    obs=[]; p='C09'
    def ob(label,fn,cases,mk,post,search,w=2,more=None): obs.append(Ob(p,label,fn,'field',ec_run(fn,cases,mk,post,more),search=search,weight=w))
    SR=['ec.mul','ec.mul_small','ec.mul_big','ec.xdbl']
    # ---- the ladder steps
    def xcase(k):
        def f(d):
            if k=='infinity': return d.var('A'),PtS(None,(d.var('w',nonzero=True),d.const(0),d.const(0)))
            return single_case(k)(d)
        return f
    xs=[(k,xcase(k)) for k in('finite','order two, x=0','order two, x<>0','infinity')]
    def nondeg(d,A,k):
        if k.startswith('order two, x<>0'): d.assume_nz(d.sub(d.mul(A,A),d.const(4)).n)
    for name,kind in(('mul_into::xdbl',1),('x_dbl_coords',0)):
        def mk(ctx,f,case,kind=kind):
            d=ctx.dom; A,p_=case(d); ctx.w=dbl(d,A,p_.aff); ctx.x=Cell(p_.rep[0]); ctx.z=Cell(p_.rep[2])
            if p_.aff is not None:
                # the curve is not singular: x^2=1 would force A=+-2 for a point of order two
                if d.equal(p_.aff[1],d.const(0)): d.assume_nz(d.sub(d.mul(p_.aff[0],p_.aff[0]),d.const(1)).n)
            return [Ref(Cell(curve(d,A))) if kind else curve(d,A),Ref(ctx.x),Ref(ctx.z)]
        def post(ctx,r,case,kind=kind):
            d=ctx.dom; X,Z=[d.fe(v) for v in((ctx.x.v,ctx.z.v) if kind else r)]
            if ctx.w is None:
                yield 'infinity: Z is zero',d.equal(Z,d.const(0)); yield 'infinity: X is not',d.known(d.norm(X.n))[0]==1
            else:
                yield 'finite',d.known(d.norm(Z.n))[0]==1; yield 'x([2]Q)',d.equal(X,d.mul(ctx.w[0],Z))
        ob(name,CV+name,xs,mk,post,SR)
    def diff(k):
        """Q0, Q1, D=Q1-Q0 (x non-zero), S=Q0+Q1 as (x or None); representations of x(Q0), x(Q1)"""
        def f(d):
            A=d.var('A'); W=lambda n:d.var('w'+n,nonzero=True)
            if k=='different x':
                q0=finite(d,A,'0'); q1=finite(d,A,'1'); dx=d.sub(q1.aff[0],q0.aff[0]); d.assume_nz(dx.n)
                ch=lambda s:chord(d,A,q0.aff,(q1.aff[0],d.scale(q1.aff[1],s)),d.mul(d.sub(d.scale(q1.aff[1],s),q0.aff[1]),d.inv(dx)))
                D,S=ch(-1)[0],ch(1)[0]; d.assume_nz(d.norm(D.n))
                return A,(q0.rep[0],q0.rep[2]),(q1.rep[0],q1.rep[2]),D,S
            if k=='Q0 infinite':
                q1=finite(d,A,'1',x=d.var('x1',nonzero=True)); return A,(W('0'),d.const(0)),(q1.rep[0],q1.rep[2]),q1.aff[0],q1.aff[0]
            if k=='Q1 infinite':
                q0=finite(d,A,'0',x=d.var('x0',nonzero=True)); return A,(q0.rep[0],q0.rep[2]),(W('1'),d.const(0)),q0.aff[0],q0.aff[0]
            q0=finite(d,A,'0'); nonzero_y(d,A,q0); D=dbl(d,A,q0.aff)[0]; d.assume_nz(d.sub(d.mul(q0.aff[0],q0.aff[0]),d.const(1)).n)
            w=W('1'); return A,(q0.rep[0],q0.rep[2]),(d.mul(q0.aff[0],w),w),D,None
        return f
    ds=[(k,diff(k)) for k in('different x','Q0 infinite','Q1 infinite','Q1=-Q0')]
    for name,aff in(('mul_into::xadd',0),('mul_into::xadd_aff',1)):
        def mk(ctx,f,case,aff=aff):
            d=ctx.dom; A,q0,q1,D,ctx.S=case(d)
            t=d.var('t',nonzero=True); ctx.q0=[Cell(v) for v in q0]; ctx.q0v=q0; ctx.q1=[Cell(v) for v in q1]
            return [Ref(Cell(curve(d,A)))]+([Ref(Cell(D))] if aff else [Ref(Cell(d.mul(D,t))),Ref(Cell(t))])+[Ref(c) for c in ctx.q0+ctx.q1]
        def post(ctx,r,case):
            d=ctx.dom; X,Z=[d.fe(c.v) for c in ctx.q1]
            yield 'Q0 unchanged',all(c.v is v for c,v in zip(ctx.q0,ctx.q0v))
            if ctx.S is None: yield 'infinity: Z is zero',d.equal(Z,d.const(0)); yield 'infinity: X is not',d.known(d.norm(X.n))[0]==1; return
            yield 'finite',d.known(d.norm(Z.n))[0]==1; yield 'x(Q0+Q1)',d.equal(X,d.mul(ctx.S,Z))
        ob(name,CV+name,ds,mk,post,SR)
    # ---- the ladder and the y-recovery
    cs=mul_cases()
    for name,into in(('mul_into',1),('mul',0)):
        for lo in range(0,len(LENS_ALL),4):
            ls=LENS_ALL[lo:lo+4]
            obs.append(Ob(p,'%s, %s bits'%(name,'/'.join(map(str,ls))),CV+name,'field+exponent',ladder_run(name,into,ls,cs),search=SR[:3],weight=6,bound='scalar bit lengths %s (all scalars of these lengths, all points)'%ls))
        for l in LENS_BIG:
            obs.append(Ob(p,'%s, %d bits'%(name,l),CV+name,'field+exponent',ladder_run(name,into,[l],[cs[7]]),search=SR[:3],weight=9,bound='bit length %d, generic point'%l))
    # ---- small and big scalars over the contract of mul_into
    def grp(fn,mk,search,bound=None):
        def run(env,res):
            f=env.fn(fn); out=[]
            for lab,m in mk:
                for o in explore(env.crate,lambda:PowDom(group_contracts(),None),f,lambda ctx:m(ctx),max_paths=4000):
                    res.paths+=1; note(res,o.ctx)
                    if o.kind!='return': out.append((lab+': no panic',False,o.msg)); continue
                    d=o.ctx.dom; r=o.ctx.c3.v if o.ctx.c3 else o.ret
                    if isinstance(r,Gk): k=r.k
                    elif isinstance(r,tuple): k={}
                    else: raise Unsupported('result')
                    out.append((lab+': multiple',d.esub(k)==d.esub(o.ctx.want),'differs by %s'%str(d.esub(padd(k,o.ctx.want,-1)))[:100]))
        
            return out
        obs.append(Ob(p,fn.split('::')[-1],fn,'exponent',run,search=search,weight=4,bound=bound))
    inf=lambda: Opaque('unset')
    def small(L,into):
        def m(ctx):
            d=ctx.dom; b=[d.bit('e%d'%i) for i in range(max(L-1,0))]+([1] if L else [])
            ctx.want=bits_poly(['e%d'%i for i in range(max(L-1,0))])
            if L: ctx.want=padd(ctx.want,pconst(1<<(L-1)))
            ctx.c3=Cell(Gk({('?',):1})) if into else None
            return [Opaque('curve')]+([Ref(ctx.c3)] if into else [])+[Ref(Cell(Gk({():1}))),d.wordof(b,64) if L else 0]
        return m
    for name,into in(('mul_small_into',1),('mul_small',0)):
        grp(CV+name,[('%d-bit scalar'%L,small(L,into)) for L in range(0,65)],['ec.mul_small'])
    from prop_pow import BigBits
    def bigm(L):
        def m(ctx):
            d=ctx.dom; ns=['e%d'%i for i in range(max(L-1,0))]; b=[d.bit(n) for n in ns]+([1] if L else [])
            ctx.want=bits_poly(ns); ctx.c3=None
            if L: ctx.want=padd(ctx.want,pconst(1<<(L-1)))
            return [Opaque('curve'),Ref(Cell(Gk({():1}))),Ref(Cell(BigBits(b,ns)))]
        return m
    LB=list(range(0,34))+[63,64,65,127,128,633,634,635,1293,1294]
    grp(CV+'mul_big',[('%d-bit scalar'%L,bigm(L)) for L in LB],['ec.mul_big'],'bit lengths 0..33 and selected up to 1294')
    # cofactor clearing: [2^e * floor(k/2^e)]P, i.e. [k]P whenever 2^e divides k
    def clr(L,e):
        def m(ctx):
            d=ctx.dom; ns=['e%d'%i for i in range(max(L-1,0))]; b=[0]*e+[d.bit(n) for n in ns]+([1] if L else [])
            w=bits_poly(ns)
            if L: w=padd(w,pconst(1<<(L-1)))
            ctx.want=pscale(w,1<<e); ctx.c3=None
            return [Ref(Cell(Opaque('curve'))),Ref(Cell(Gk({():1}))),Ref(Cell(BigBits(b if L else [],ns))),e]
        return m
    grp('supersingular::clear_cofactor',[('%d-bit cofactor times 2^%d'%(L,e),clr(L,e)) for L in (0,1,2,3,8,9,17,64,65,660) for e in (0,1,2,7,8,9,632,634)],['ss.clear'],'cofactors 2^e*m, e and the length of m from a list')
    # the constant point at infinity
    def infrun(env,res):
        out=[]
        for c in ('ecFESTA::Point::INFINITY',):
            def d(): return Field(P,'fp2',C2())
            dom=d(); ctx=Ctx(env.crate,dom); v=ctx.const_path(c)
            out.append((c,dom.equal(dom.fe(v[2]),dom.const(0)),''))
        return out
    obs.append(Ob(p,'Point::INFINITY',None,'field',infrun,search=['ec.mul_small']))
    return obs
