"""Odd-degree isogenies of Montgomery curves (isogeny.rs) and the isogenies of supersingular.rs."""
from prop_pair import *
from facdom import *
import math
EK=EC+'KummerLineIsogeny::'
def powbig(ctx,a):
    e=ld(ctx,a[1])
    if not isinstance(e,int): raise Unsupported('symbolic exponent')
    return ctx.dom.pow(ctx.dom.fe(ld(ctx,a[0])),e)
class PX(Sym):
    """point handed out by complete_pointX"""
    def __init__(self,A,X,Z): self.A=A; self.X=X; self.Z=Z
def kum_contracts(l):
    C=fp_contracts(FP2,'Fp2'); C[FP2+'pow_big']=powbig; C[FP2+'pow_small']=powbig
    def pk(ctx,v):
        v=ld(ctx,v)
        if isinstance(v,PtK): return v
        if isinstance(v,tuple) and v in ctx.idents: return PtK('K',{})
        raise Unsupported('point expected')
    def gk(ctx,v):
        p=pk(ctx,v)
        if p.b!='K': raise Unsupported('group law on the evaluated point')
        return p
    def mk(k): k%=l; return PtK('K',pconst(k) if k else {})
    def kv(p): return p.k.get((),0)
    def st(ctx,r,v): ctx.store(r,v); return ()
    def on(ctx,a):
        if not (ctx.dom.equal(ctx.dom.fe(ld(ctx,a[0])[0]),ctx.A)): raise Unproved('group law of another curve')
    def bin_(s):
        def h(ctx,a): on(ctx,a); return mk(kv(gk(ctx,a[1]))+s*kv(gk(ctx,a[2])))
        return h
    C[CV+'add']=bin_(1); C[CV+'sub']=bin_(-1)
    C[CV+'addto']=lambda ctx,a: st(ctx,a[1],bin_(1)(ctx,a)); C[CV+'subfrom']=lambda ctx,a: st(ctx,a[1],bin_(-1)(ctx,a))
    def dbl(ctx,a): on(ctx,a); return mk(2*kv(gk(ctx,a[1])))
    C[CV+'double']=dbl; C[CV+'double_self']=lambda ctx,a: st(ctx,a[1],dbl(ctx,a))
    def mul(ctx,a):
        on(ctx,a); n=ld(ctx,a[2])
        if not isinstance(n,int): raise Unsupported('multiple')
        return mk(n*kv(gk(ctx,a[1])))
    C[CV+'mul_small']=mul; C[CV+'mul_big']=mul
    for n in('<ecFESTA::Point as Neg>::neg','<ecFESTA::&Point as Neg>::neg'): C[n]=lambda ctx,a: mk(-kv(gk(ctx,a[0])))
    C[PT+'isinfinity']=lambda ctx,a: 0 if kv(pk(ctx,a[0])) else 0xFFFFFFFF   # the token P has index 0 when infinite
    def coords(ctx,p):
        k=kv(p); d=ctx.dom
        if not k: return (d.var('Xo'),d.var('Yo'),d.const(0))
        s=-1 if k>l-k else 1; k=min(k,l-k); ctx.used.add(k)
        return (d.var('X%d'%k),d.scale(d.var('Y%d'%k),s),d.var('Z%d'%k))
    def xz(ctx,a):
        v=ld(ctx,a[0])
        if isinstance(v,PtK) and v.b=='P': return ctx.Pc
        c=coords(ctx,pk(ctx,a[0])); return (c[0],c[2])
    C[PT+'to_xz']=xz
    C[PT+'to_xyz']=lambda ctx,a: coords(ctx,pk(ctx,a[0]))
    def comp(ctx,a):
        d=ctx.dom; A=d.fe(ld(ctx,a[0])[0]); p=ld(ctx,a[1]); return (PX(A,d.fe(p[0]),d.fe(p[1])),0xFFFFFFFF)
    C[CV+'complete_pointX']=comp
    return C
def kum_one(env,res,l):
    """new(E,K,l), get_codomain and evaluate_isogeny, for K of order l"""
    fnew,fcod,fev=env.fn(EK+'new'),env.fn(EK+'get_codomain'),env.fn(EK+'evaluate_isogeny'); out=[]; ids=idents(env); lab='degree %d: '%l
    def run(ctx):
        d=ctx.dom; ctx.A=d.var('A'); ctx.idents=ids; ctx.used=set()
        E=(ctx.A,d.scale(d.add(ctx.A,d.const(2)),pow(4,-1,P))); dom=Cell(E)
        phi=Cell(ctx.run_fn(fnew,[Ref(dom),Ref(Cell(PtK('K',pconst(1)))),l]))
        cod=ctx.run_fn(fcod,[Ref(phi)]); ctx.A2=d.fe(cod[0]); ctx.A24=d.fe(cod[1])
        rs=[]
        for inf in(0,1):
            ctx.Pc=(d.var('x'),d.const(0) if inf else d.var('z')); rs.append(ctx.run_fn(fev,[Ref(phi),Ref(Cell(PtK('P',{} if inf else pconst(1))))]))
        return rs
    for o in explore_body(env.crate,lambda:FacDom(P,kum_contracts(l)),run):
        res.paths+=1; note(res,o.ctx); ctx=o.ctx; d=ctx.dom
        if o.kind!='return': out.append((lab+'no panic',False,o.msg)); continue
        A=ctx.A; ys,zs=[],[]
        for i in range(1,(l-1)//2+1):
            Xi,Zi=d.var('X%d'%i),d.var('Z%d'%i)
            ys.append(d.sub(Xi,Zi)); zs.append(d.add(Xi,Zi))
        py,pz=d.prod(ys),d.prod(zs); ys,zs=[],[]
        x,z=d.var('x'),d.var('z')
        for i in range(1,(l-1)//2+1):
            Xi,Zi=d.var('X%d'%i),d.var('Z%d'%i)
            ys.append(d.sub(d.mul(x,Xi),d.mul(z,Zi))); zs.append(d.sub(d.mul(x,Zi),d.mul(z,Xi)))
        xi,zi=d.prod(ys),d.prod(zs)
        a=d.mul(d.pow(d.add(A,d.const(2)),l),d.pow(pz,8)); b=d.mul(d.pow(d.sub(A,d.const(2)),l),d.pow(py,8))
        C=d.sub(a,b); ok=[d.mul(m,w) for m in(C,a,b,d.mul(a,b)) for w in(d.const(1),d.inv(C),d.inv(d.mul(C,C)))]; want=d.scale(d.mul(d.add(a,b),d.inv(C)),2)
        out.append((lab+'codomain constant 2(a^l z^8 + d^l y^8)/(a^l z^8 - d^l y^8)',d.equal(ctx.A2,want),'%s / %s'%(d.show(ctx.A2),d.show(want))))
        out.append((lab+'codomain A24 = (A+2)/4',d.equal(ctx.A24,d.scale(d.add(ctx.A2,d.const(2)),pow(4,-1,P))),''))
        for f in d.nonzero_used: out.append((lab+'only divides by the denominator of the codomain constant',any(not d.mul(f,d.inv(g)).d for g in ok) or None,d.show(f)))
        r,r2=o.ret
        out.append((lab+'image of the point at infinity',r2==ids[1] or (isinstance(r2,PX) and not r2.Z.c and bool(r2.X.c)) or None,repr(r2)))
        if not isinstance(r,PX): out.append((lab+'image is a completed point',None,repr(r))); continue
        out.append((lab+'image is on the codomain',d.equal(r.A,ctx.A2),''))
        # (X : Z) = (x prod (x X_i - z Z_i)^2 : z prod (x Z_i - z X_i)^2)
        u=d.mul(x,d.mul(xi,xi)); v=d.mul(z,d.mul(zi,zi)); q=d.mul(r.X,d.inv(u))
        out.append((lab+'image x-coordinate',d.equal(d.mul(r.X,v),d.mul(r.Z,u)),'%s : %s'%(d.show(r.X),d.show(r.Z))))
        # a common factor must not vanish: a constant
        out.append((lab+'no common factor in the image',True if not q.d else None,d.show(q)))
    return out

# ------------------------------------------------------------------------------------------------ chains
class CT(Sym):
    """a curve; n: the order of the image of the kernel generator on it"""
    def __init__(self,name,n=None): self.name=name; self.n=n
    def same(self,o): return self is o
    def __repr__(self): return self.name
class IG(Sym):
    """isogeny dom -> cod of the given degree (kernel generated by a multiple of the image of the generator)"""
    def __init__(self,dom,deg,cod): self.dom=dom; self.deg=deg; self.cod=cod
    def same(self,o): return self is o
    def __repr__(self): return '%s-%s->%s'%(self.dom,self.deg,self.cod)
class PV(Sym):
    """up to an unknown sign: [k] times the image of the kernel generator, on cur (k 1 unless it is that generator); path: the isogenies applied"""
    def __init__(self,cur,b,k,path=()): self.cur=cur; self.b=b; self.k=k; self.path=tuple(path)
    def same(self,o): return isinstance(o,PV) and (self.cur,self.b,self.k,self.path)==(o.cur,o.b,o.k,o.path)
    def __repr__(self): return '[%s]%s on %s'%(self.k,self.b,self.cur)
def ref_eq(ctx,v,c): return ld(ctx,v) is c
def chain_contracts():
    C={}
    def pv(ctx,v):
        v=ld(ctx,v)
        if not isinstance(v,PV): raise Unsupported('point expected')
        return v
    def cur(ctx,v):
        v=ld(ctx,v)
        if not isinstance(v,CT): raise Unsupported('curve expected')
        return v
    def mul(ctx,a):
        E,p,n=cur(ctx,a[0]),pv(ctx,a[1]),ld(ctx,a[2])
        if p.cur is not E: raise Refuted('multiple computed on another curve')
        if not isinstance(n,int): raise Unsupported('multiple')
        return PV(E,p.b,p.k*n%E.n if p.b=='K' else p.k*n,p.path)
    C[CV+'mul_small']=mul; C[CV+'mul_big']=mul
    def new(ctx,a):
        E,p,l=cur(ctx,a[0]),pv(ctx,a[1]),a[2]
        if p.b!='K': raise Unsupported('kernel')
        if p.cur is not E: raise Refuted('kernel on another curve')
        n=E.n//math.gcd(E.n,p.k)
        if n!=l: raise Refuted('isogeny of degree %s from a kernel generator of order %s'%(l,n))
        return IG(E,l,CT('%s/%d'%(E.name,l),E.n//l))
    C[EK+'new']=new
    def ig(ctx,v):
        v=ld(ctx,v)
        if not isinstance(v,IG): raise Unsupported('isogeny expected')
        return v
    C[EK+'get_codomain']=lambda ctx,a: ig(ctx,a[0]).cod
    def ev(ctx,a):
        f,p=ig(ctx,a[0]),pv(ctx,a[1])
        if p.cur is not f.dom: raise Refuted('isogeny %r evaluated at a point of %r'%(f,p.cur))
        return PV(f.cod,p.b,p.k%f.cod.n if p.b=='K' else p.k,p.path+(f,))
    C[EK+'evaluate_isogeny']=ev
    def isinf(ctx,a):
        p=pv(ctx,a[0])
        if p.b=='K': return 0xFFFFFFFF if p.k%p.cur.n==0 else 0
        # an arbitrary point: both answers, consistently (an image of infinity is infinite)
        t=ctx.__dict__.setdefault('inf',{}); key=(p.b,p.k,p.path)
        if key not in t:
            if any(v and k[0]==p.b and k[1]==p.k and p.path[:len(k[2])]==k[2] for k,v in t.items()): t[key]=True
            elif any(not v and k[0]==p.b and k[1]==p.k and k[2][:len(p.path)]==p.path for k,v in t.items()): t[key]=False
            else: t[key]=ctx.decide(2,'infinite')==0
        return 0xFFFFFFFF if t[key] else 0
    C[PT+'isinfinity']=isinf
    return C
def factored(env,res,lists):
    fn=env.fn(EC+'factored_kummer_isogeny'); out=[]
    for fac in lists:
        N=1
        for l,e in fac: N*=l**e
        def args(ctx):
            ctx.E=CT('E',N); return [Ref(Cell(ctx.E)),Ref(Cell(PV(ctx.E,'K',1))),Ref(Cell(tuple(fac)),(),(0,len(fac)))]
        lab='order %s: '%'*'.join('%d^%d'%x for x in fac)
        for o in explore(env.crate,lambda:Domain(chain_contracts()),fn,args):
            res.paths+=1; note(res,o.ctx)
            if o.kind!='return': out.append((lab+'no panic',False,o.msg)); continue
            L=o.ret.items; c=o.ctx.E; ok=True; deg=1
            for f in L: ok=ok and isinstance(f,IG) and f.dom is c; c=f.cod; deg*=f.deg
            out.append((lab+'consecutive isogenies starting at the domain',ok,repr(L)[:200])); out.append((lab+'degree of the chain',deg==N,str(deg)))
            out.append((lab+'the kernel generator is mapped to infinity',c.n==1,''))
    return out
def eval_chain(env,res):
    fn=env.fn(EC+'evaluate_isogeny_chain'); out=[]
    for r in range(0,13):
        def args(ctx):
            cs=[CT('E%d'%i) for i in range(r+1)]; ctx.cs=cs; ctx.P=PV(cs[0],'P',1)
            ctx.L=tuple(IG(cs[i],3,cs[i+1]) for i in range(r)); return [Ref(Cell(cs[0])),Ref(Cell(ctx.P)),Ref(Cell(VecVal(ctx.L)))]
        for o in explore(env.crate,lambda:Domain(chain_contracts()),fn,args):
            res.paths+=1; note(res,o.ctx); lab='%d isogenies: '%r
            if o.kind!='return': out.append((lab+'no panic',False,o.msg)); continue
            c,p=o.ret
            out.append((lab+'codomain of the last',c is o.ctx.cs[-1],repr(c))); out.append((lab+'image under all of them, in order',isinstance(p,PV) and p.b=='P' and p.k==1 and (p.cur is c and p.path==o.ctx.L or any(v and p.path[:len(k[2])]==k[2] for k,v in getattr(o.ctx,'inf',{}).items())),repr(p)))
    return out
class SP(Sym):
    """sign * image (or not) of the basis point b"""
    def __init__(self,b,s,cur): self.b=b; self.s=s; self.cur=cur
    def __repr__(self): return '%s%s on %s'%('+' if self.s>0 else '-',self.b,self.cur)
def for_basis(env,res):
    fn=env.fn(EC+'evaluate_isogeny_chain_for_basis'); out=[]
    def dom():
        C=grp_contracts()
        def ev(ctx,a):
            E,p,L=ld(ctx,a[0]),ld(ctx,a[1]),ld(ctx,a[2])
            if E is not ctx.E or p.cur is not E or L is not ctx.L: raise Unproved('chain evaluated at %r from %r'%(p,E))
            return (ctx.F,SP(p.b,1-2*ctx.decide(2,'sign'),ctx.F))
        C[EC+'evaluate_isogeny_chain']=ev
        def weil(ctx,a):
            E,x,y,n=ld(ctx,a[0]),ld(ctx,a[1]),ld(ctx,a[2]),ld(ctx,a[3])
            if x.cur is not E or y.cur is not E: raise Refuted('pairing on another curve')
            if pol(n)!={('n',):1}: raise Unproved('pairing for another order')
            s=x.s*y.s*((x.b=='P' and y.b=='Q')-(x.b=='Q' and y.b=='P'))
            return GE({('d',):s} if E is ctx.F else pconst(s)) if s else GE({},None)
        C[PA+'weil_pairing']=weil
        for n in('<ecFESTA::Point as Neg>::neg','<ecFESTA::&Point as Neg>::neg'): C[n]=lambda ctx,a: (lambda p:SP(p.b,-p.s,p.cur))(ld(ctx,a[0]))
        d=GrpDom(C); d.idents=idents(env)
        def iszero(ctx,b,k):
            if k in({('d',):2},{('d',):-2}): return False        # e(P,Q)^(2 degree) is not one
            raise Unproved('comparison of other powers of the pairing')
        d.iszero=iszero; return d
    def args(ctx):
        ctx.E,ctx.F=CT('E'),CT('F'); ctx.L=VecVal((Opaque('chain'),)); d=ctx.dom; d.var('n',lo=2); d.var('d',lo=1)
        return [Ref(Cell(ctx.E)),Ref(Cell((SP('P',1,ctx.E),SP('Q',1,ctx.E)))),Ref(Cell(ctx.L)),Ref(Cell(IV({('n',):1}))),Ref(Cell(IV({('d',):1})))]
    for o in explore(env.crate,dom,fn,args):
        res.paths+=1; note(res,o.ctx)
        if o.kind!='return': out.append(('no panic',False,o.msg)); continue
        c,(x,y)=o.ret
        out.append(('codomain of the chain',c is o.ctx.F,'')); ok=isinstance(x,SP) and isinstance(y,SP) and (x.b,y.b)==('P','Q') and x.cur is c and y.cur is c
        out.append(('the images of P and Q in this order',ok,repr((x,y)))); out.append(('images up to one common sign',ok and x.s==y.s,repr((x,y))))
    return out
class LinPt(Sym):
    """a P + b Q of a basis"""
    def __init__(self,cur,c): self.cur=cur; self.c={k:v for k,v in c.items() if v}
    def __repr__(self): return repr({k:IV(v) for k,v in self.c.items()})
def ss_contracts(env):
    C={}
    def lp(ctx,v):
        v=ld(ctx,v)
        if isinstance(v,LinPt): return v
        raise Unsupported('point expected')
    def add(ctx,a,s=1):
        E,x,y=ld(ctx,a[0]),lp(ctx,a[1]),lp(ctx,a[2])
        if not(x.cur is E and y.cur is E): raise Refuted('addition on another curve')
        return LinPt(E,{k:padd(x.c.get(k,{}),y.c.get(k,{}),s) for k in set(x.c)|set(y.c)})
    C[CV+'add']=add; C[CV+'sub']=lambda ctx,a: add(ctx,a,-1)
    def mul(ctx,a):
        E,x,n=ld(ctx,a[0]),lp(ctx,a[1]),pol(ld(ctx,a[2]))
        if x.cur is not E: raise Refuted('multiple on another curve')
        return LinPt(E,{k:pmul(v,n) for k,v in x.c.items()})
    C[CV+'mul_big']=mul; C[CV+'mul_small']=mul
    def fki(ctx,a):
        E,K,f=ld(ctx,a[0]),lp(ctx,a[1]),tuple(ctx.load(a[2]))
        if K.cur is not E: raise Refuted('kernel on another curve')
        if f!=ctx.fac: raise Unproved('kernel of another order')
        L=[]; c=E
        for i in range(ctx.r): t=CT('%s.%d'%(c.name,i)); L.append(IG(c,3,t)); c=t
        ctx.calls.append((E,K,tuple(L))); return VecVal(L)
    C[EC+'factored_kummer_isogeny']=fki
    C[EK+'get_codomain']=lambda ctx,a: ld(ctx,a[0]).cod
    def gen(ctx,a):
        E,f=ld(ctx,a[0]),tuple(ctx.load(a[1]))
        if f!=ctx.fac or a[2]!=const(env,'L_POWER'): raise Unproved('point of another order requested')
        ctx.gen.append(E); return LinPt(E,{'R%d'%len(ctx.gen):pconst(1)})
    C[SS+'generate_random_point_order_factored_D']=gen
    def tb(ctx,a):
        E,f=ld(ctx,a[0]),tuple(ctx.load(a[1]))
        if f!=ctx.fac or a[2]!=const(env,'L_POWER'): raise Unproved('basis of another order requested')
        return (LinPt(E,{'P':pconst(1)}),LinPt(E,{'Q':pconst(1)}))
    C[SS+'torsion_basis']=tb
    return C
FAC=((3,2),(5,1))
def from_scalar(env,res):
    fn=env.fn(SS+'isogeny_from_scalar_x_only'); out=[]
    for given in(0,1):
        for r in(1,2,3):
            def args(ctx):
                ctx.E=CT('E'); ctx.calls=[]; ctx.r=r; ctx.fac=FAC; ctx.dom.var('m',lo=0); n='G' if given else ''
                b=Some((LinPt(ctx.E,{'GP':pconst(1)}),LinPt(ctx.E,{'GQ':pconst(1)}))) if given else NONE
                return [Ref(Cell(ctx.E)),Ref(Cell(FAC),(),(0,2)),Ref(Cell(IV({('m',):1}))),b]
            for o in explore(env.crate,lambda:IntDom(ss_contracts(env)),fn,args):
                res.paths+=1; note(res,o.ctx); lab='basis %s: '%('given' if given else 'generated')
                if o.kind!='return': out.append((lab+'no panic',False,o.msg)); continue
                L,c=o.ret; n='G' if given else ''
                ok=[q for q in o.ctx.calls if q[2]==tuple(L.items)]
                out.append((lab+'an isogeny chain of the curve',len(ok)==1 and ok[0][0] is o.ctx.E,repr(L)))
                out.append((lab+'kernel P + mQ',len(ok)==1 and ok[0][1].c=={n+'P':pconst(1),n+'Q':{('m',):1}},repr(ok)[:200]))
                out.append((lab+'codomain of the last isogeny',len(ok)==1 and c is L.items[-1].cod,repr(c)))
    return out
def random_isog(env,res):
    fn=env.fn(SS+'random_isogeny_x_only'); out=[]
    for steps in range(0,7):
        def args(ctx):
            ctx.E=CT('E'); ctx.calls=[]; ctx.gen=[]; ctx.r=1+steps%3; ctx.fac=FAC; return [Ref(Cell(ctx.E)),Ref(Cell(FAC),(),(0,2)),steps]
        for o in explore(env.crate,lambda:IntDom(ss_contracts(env)),fn,args):
            res.paths+=1; note(res,o.ctx); lab='%d steps: '%steps
            if o.kind!='return': out.append((lab+'no panic',False,o.msg)); continue
            L,c=o.ret; ok=len(o.ctx.calls)==steps; E=o.ctx.E; want=()
            for i,(D,K,l) in enumerate(o.ctx.calls):
                ok=ok and D is E and K.cur is E and K.c=={'R%d'%(i+1):pconst(1)}; E=l[-1].cod if l else E; want+=l
            out.append((lab+'every step from the last curve, its kernel a fresh point of the requested order',ok,repr(o.ctx.calls)[:300]))
            out.append((lab+'all isogenies in order',tuple(L.items)==want,'')); out.append((lab+'final codomain',c is E,repr(c)))
    return out
def lemma3(env,res):
    """degree three: K = (t, .) with 3t^4 + 4At^3 + 6t^2 - 1 = 0; the formulas used above give a curve and a map onto it"""
    d=Field(P,'fp2',fp_contracts(FP2,'Fp2')); t=d.var('t',nonzero=True); x=d.var('x'); one=d.const(1); sq=lambda v:d.mul(v,v); t2=sq(t)
    A=d.mul(d.sub(d.sub(one,d.scale(t2,6)),d.scale(sq(t2),3)),d.inv(d.scale(d.mul(t,t2),4)))
    a=d.mul(d.pow(d.add(A,d.const(2)),3),d.pow(d.add(t,one),8)); b=d.mul(d.pow(d.sub(A,d.const(2)),3),d.pow(d.sub(t,one),8))
    A2=d.scale(d.mul(d.add(a,b),d.inv(d.sub(a,b))),2)
    n,m=d.sub(d.mul(x,t),one),d.sub(x,t); f=d.mul(x,sq(d.mul(n,d.inv(m))))
    # derivative of x n^2 / m^2: (n m + 2 x t m - 2 x n) n / m^3
    df=d.mul(d.mul(n,d.inv(d.mul(m,sq(m)))),d.sub(d.add(d.mul(n,m),d.scale(d.mul(d.mul(x,t),m),2)),d.scale(d.mul(x,n),2)))
    r=lambda A,x:d.add(d.add(d.mul(x,sq(x)),d.mul(A,sq(x))),x)
    return [('codomain constant (At - 6t^2 + 6)t',d.equal(A2,d.mul(t,d.add(d.sub(d.mul(A,t),d.scale(t2,6)),d.const(6)))),''),
            ('x -> x (tx-1)^2/(x-t)^2, y -> t y f\'(x) maps the curve to the codomain',d.equal(d.mul(t2,d.mul(sq(df),r(A,x))),d.mul(t2,r(A2,f))) or d.equal(d.mul(sq(df),r(A,x)),d.mul(t2,r(A2,f))) or d.equal(d.mul(t2,d.mul(sq(df),r(A,x))),r(A2,f)),'')]
def c18(crate):
    p='C18'; obs=[Ob('C18','lemma: the formulas for degree three','','field',lemma3,search=[])]
    small=[l for l in range(3,200,2) if all(l%q for q in range(3,l,2))]
    big=sorted(q for q in F_ODD if q>=200)
    groups=[small[i::4] for i in range(4)]+[[q for q in big if q<2000]]+[[q for q in big if 2000<q<5000][i::3] for i in range(3)]+[[q] for q in big if q>5000]
    for i,g in enumerate(groups):
        def run(env,res,g=g):
            out=[]
            for l in g: out+=kum_one(env,res,l)
            return out
        obs.append(Ob(p,'isogenies of prime degree, group %d'%i,EK+'new','products',run,search=['ig.one'],bound='degrees '+' '.join(map(str,g)),weight=max(g)/100,timeout=600))
    fl=[[((l,e),) for l in(3,5,41161) for e in range(1,25)],[((3,1),(5,1)),((5,2),(3,3)),((3,4),(7,1),(5,2)),((11,1),(3,1),(7,3),(5,1)),((59,1),(3,6)),((3,1),(5,1),(7,1),(11,1),(13,1),(17,1))]]
    for i,f in enumerate(fl): obs.append(Ob(p,'factored_kummer_isogeny, '+['prime powers','several primes'][i],EC+'factored_kummer_isogeny','kernels',lambda env,res,f=f:factored(env,res,f),search=['ig.chain'],bound=['exponents up to 24','6 lists'][i]))
    for n in FACS:
        if n.startswith('2'): continue
        def sch(env,res,n=n): return factored(env,res,[[tuple(x) for x in const(env,n.split('*')[0]+'_FACTORED')]])
        if '*' not in n: obs.append(Ob(p,'factored_kummer_isogeny, '+n,EC+'factored_kummer_isogeny','kernels',sch,search=['ig.chain'],bound='order %s of the scheme'%n))
    obs.append(Ob(p,'evaluate_isogeny_chain',EC+'evaluate_isogeny_chain','kernels',eval_chain,search=['ig.chain'],bound='chains of up to 12 isogenies'))
    obs.append(Ob(p,'evaluate_isogeny_chain_for_basis',EC+'evaluate_isogeny_chain_for_basis','kernels',for_basis,search=['ig.basis']))
    obs.append(Ob(p,'isogeny_from_scalar_x_only',SS+'isogeny_from_scalar_x_only','kernels',from_scalar,search=['ig.scalar'],bound='chains of up to 3 isogenies'))
    obs.append(Ob(p,'random_isogeny_x_only',SS+'random_isogeny_x_only','kernels',random_isog,search=['ig.rand'],bound='up to 6 steps'))
    return obs
