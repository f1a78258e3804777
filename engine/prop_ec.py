"""Contracts of eccore (instantiated as ecFESTA): points, curves and the group law, over the contracts of the
extension field.  A finite point is (xz : yz : z) with z non-zero and y^2 = x^3 + A x^2 + x."""
from spec import *
from obl import *
from prop_fp import field_run,refs
from field import *
PT='ecFESTA::Point::'; CV='ecFESTA::Curve::'; PX='ecFESTA::PointX::'
C2=lambda: fp_contracts(FP2,'Fp2')

def rhs(d,A,x): return d.add(d.mul(d.add(d.mul(x,x),d.mul(A,x)),x),x)
def curve(d,A=None):
    A=A if A is not None else d.var('A')
    return (A,d.scale(d.add(A,d.const(2)),pow(4,-1,P)))
class PtS:
    """specification-level point: None or affine (x,y); and a projective representation"""
    def __init__(self,aff,rep): self.aff=aff; self.rep=rep
def finite(d,A,n,x=None,y=None,z=None):
    x=x if x is not None else d.var('x'+n)
    z=z if z is not None else d.var('z'+n,nonzero=True)
    if y is None: y=d.var('y'+n,root_of=rhs(d,A,x).n); 
    return PtS((x,y),(d.mul(x,z),d.mul(y,z),z))
def nonzero_y(d,A,p): d.assume_nz(p.aff[1].n); d.assume_nz(rhs(d,A,p.aff[0]).n)
def infinite(d,n): return PtS(None,(d.var('X'+n),d.var('Y'+n),d.const(0)))
def neg(d,p): return None if p is None else (p[0],d.neg(p[1]))
def chord(d,A,p,q,lam):
    x3=d.sub(d.sub(d.mul(lam,lam),A),d.add(p[0],q[0]))
    return (x3,d.sub(d.mul(lam,d.sub(p[0],x3)),p[1]))
def dbl(d,A,p):
    if p is None: return None
    if d.equal(p[1],d.const(0)): return None
    x,y=p
    lam=d.mul(d.add(d.add(d.scale(d.mul(x,x),3),d.scale(d.mul(A,x),2)),d.const(1)),d.inv(d.scale(y,2)))
    return chord(d,A,p,p,lam)
def check(ctx,lab,pt,want):
    """pt (projective triple) represents the affine point `want`"""
    d=ctx.dom; X,Y,Z=[d.fe(v) for v in pt]
    if want is None: yield lab+' is the point at infinity',d.equal(Z,d.const(0)); return
    yield lab+' is finite',d.known(d.norm(Z.n))[0]==1
    yield lab+' x',d.equal(X,d.mul(want[0],Z))
    yield lab+' y',d.equal(Y,d.mul(want[1],Z))
def one(d,aff): return (aff[0],aff[1],d.const(1))
def two_torsion(d,n,k):
    """(A, point of order two): x=0 or x=t, A=-(t^2+1)/t"""
    if k==0: return d.var('A'),d.const(0)
    t=d.var('t'+n,nonzero=True)
    return FE(d.R.neg(d.R.add(d.R.mul(t.n,t.n),d.R.const(1))),t.n),t

# ---- the cases of an ordered pair of points; together they cover every pair
def pairs(d):
    raise NotImplementedError
def pair_case(k):
    def mk(d):
        if k=='different x':
            A=d.var('A'); p=finite(d,A,'1'); q=finite(d,A,'2'); dx=d.sub(q.aff[0],p.aff[0]); d.assume_nz(dx.n)
            lam=d.mul(d.sub(q.aff[1],p.aff[1]),d.inv(dx)); return A,p,q,chord(d,A,p.aff,q.aff,lam)
        if k in('equal','opposite'):
            A=d.var('A'); p=finite(d,A,'1'); nonzero_y(d,A,p)
            s=1 if k=='equal' else -1
            q=finite(d,A,'2',x=p.aff[0],y=d.scale(p.aff[1],s)); return A,p,q,(dbl(d,A,p.aff) if s==1 else None)
        if k in('order two, x=0','order two, x<>0'):
            A,x=two_torsion(d,'',0 if 'x=0' in k else 1)
            p=finite(d,A,'1',x=x,y=d.const(0)); q=finite(d,A,'2',x=x,y=d.const(0)); return A,p,q,None
        A=d.var('A')
        if k=='infinity + finite': p,q=infinite(d,'1'),finite(d,A,'2'); return A,p,q,q.aff
        if k=='finite + infinity': p,q=finite(d,A,'1'),infinite(d,'2'); return A,p,q,p.aff
        if k=='infinity + infinity': p,q=infinite(d,'1'),infinite(d,'2'); return A,p,q,None
        raise KeyError(k)
    return mk
PAIRS=['different x','equal','opposite','order two, x=0','order two, x<>0','infinity + finite','finite + infinity','infinity + infinity']
def single_case(k):
    def mk(d):
        if k=='finite':
            A=d.var('A'); p=finite(d,A,'1'); nonzero_y(d,A,p); return A,p
        if k.startswith('order two'):
            A,x=two_torsion(d,'',0 if 'x=0' in k else 1); return A,finite(d,A,'1',x=x,y=d.const(0))
        return d.var('A'),infinite(d,'1')
    return mk
SINGLES=['finite','order two, x=0','order two, x<>0','infinity']

def ec_run(fn,cases,mk,post,more=None,prefix=FP2):
    def run(env,res):
        f=env.fn(fn); out=[]
        for lab,case in cases:
            def dom():
                C=C2()
                if more: C.update(more)
                return Field(P,'fp2',C)
            def mk_(ctx): return mk(ctx,f,case)
            for o in explore(env.crate,dom,f,mk_):
                res.paths+=1; note(res,o.ctx)
                if o.kind!='return': out.append((lab+': no panic',False,o.msg)); continue
                for c in post(o.ctx,o.ret,case): out.append(('%s: %s'%(lab,c[0]),c[1],c[2] if len(c)>2 else ''))
        return out
    return run

def arg(ctx,t,v):
    """argument of declared type t"""
    if t.startswith('&'):
        c=Cell(v); ctx.cs.append(c); return Ref(c)
    ctx.cs.append(None); return v

def c08(crate):
    obs=[]; p='C08'
    def ob(label,fn,cases,mk,post,search,w=2,more=None): obs.append(Ob(p,label,fn,'field',ec_run(fn,cases,mk,post,more),search=search,weight=w))
    ident=lambda ctx,c,v:[('operand unchanged',all(d is s for d,s in zip(c.v,v)))]
    # ------------------------------------------------------------ addition family
    prs=[(k,pair_case(k)) for k in PAIRS]
    for name,into,sub in(('add_into',1,0),('addto',2,0),('add',0,0),('sub_into',1,1),('subfrom',2,1),('sub',0,1)):
        def mk(ctx,f,case,into=into,sub=sub):
            d=ctx.dom; A,p_,q_,w=case(d); ctx.w=w; ctx.p=p_; ctx.q=q_
            if sub: q_=PtS(q_.aff,(q_.rep[0],d.neg(q_.rep[1]),q_.rep[2])); ctx.q=q_
            ctx.c3=Cell((d.var('a'),d.var('b'),d.var('c'))); ctx.cp=Cell(p_.rep); ctx.cq=Cell(q_.rep)
            a=[curve(d,A)]
            if into==1: a.append(Ref(ctx.c3))
            return a+[Ref(ctx.cp),Ref(ctx.cq)]
        def post(ctx,r,case,into=into):
            res=ctx.c3.v if into==1 else ctx.cp.v if into==2 else r
            yield from check(ctx,'result',res,ctx.w)
            if into!=2: yield from ident(ctx,ctx.cp,ctx.p.rep)
            yield from ident(ctx,ctx.cq,ctx.q.rep)
        ob(name,CV+name,prs,mk,post,['ec.add','ec.sub'])
    # ------------------------------------------------------------ doubling family
    sg=[(k,single_case(k)) for k in SINGLES]
    for name,kind in(('double_into',1),('double_self',2),('double',0),('double_from_coords',3)):
        def mk(ctx,f,case,kind=kind):
            d=ctx.dom; A,p_=case(d); ctx.p=p_; ctx.w=dbl(d,A,p_.aff)
            ctx.c3=Cell((d.var('a'),d.var('b'),d.var('c'))); ctx.cp=Cell(p_.rep)
            if kind==3: return [curve(d,A)]+[Ref(Cell(v)) for v in p_.rep]
            return [curve(d,A)]+([Ref(ctx.c3)] if kind==1 else [])+[Ref(ctx.cp)]
        def post(ctx,r,case,kind=kind):
            yield from check(ctx,'result',ctx.c3.v if kind==1 else ctx.cp.v if kind==2 else r,ctx.w)
            if kind in(0,1): yield from ident(ctx,ctx.cp,ctx.p.rep)
        ob(name,CV+name,sg,mk,post,['ec.double'])
    # x-only doubling
    def mk(ctx,f,case):
        d=ctx.dom; A,p_=case(d); ctx.w=dbl(d,A,p_.aff)
        return [curve(d,A),Ref(Cell(p_.rep[0])),Ref(Cell(p_.rep[2]))]
    def post(ctx,r,case):
        d=ctx.dom; X,Z=[d.fe(v) for v in r]
        if ctx.w is None: yield 'Z is zero',d.equal(Z,d.const(0))
        else:
            yield 'Z is non-zero',d.known(d.norm(Z.n))[0]==1
            yield 'x',d.equal(X,d.mul(ctx.w[0],Z))
    ob('x_dbl_coords',CV+'x_dbl_coords',[c for c in sg if c[0]!='infinity'],mk,post,['ec.xdbl'])
    # ------------------------------------------------------------ repeated doubling over the contract of double
    repeated(obs,p)
    # ------------------------------------------------------------ negation
    for name,kind in((PT+'set_neg',1),('<ecFESTA::Point as Neg>::neg',0),('<ecFESTA::&Point as Neg>::neg',2)):
        def mk(ctx,f,case,kind=kind):
            d=ctx.dom; A,p_=case(d); ctx.p=p_; ctx.cp=Cell(p_.rep)
            return [Ref(ctx.cp)] if kind else [p_.rep]
        def post(ctx,r,case,kind=kind):
            yield from check(ctx,'result',ctx.cp.v if kind==1 else r,neg(ctx.dom,ctx.p.aff))
            if kind==2: yield from ident(ctx,ctx.cp,ctx.p.rep)
        ob(name,name,sg,mk,post,['ec.neg'])
    for ctl in(0,ONES32):
        def mk(ctx,f,case,ctl=ctl):
            d=ctx.dom; A,p_=case(d); ctx.p=p_; ctx.cp=Cell(p_.rep); return [Ref(ctx.cp),ctl]
        ob('set_condneg ctl=%x'%ctl,PT+'set_condneg',sg,mk,lambda ctx,r,case,ctl=ctl:check(ctx,'result',ctx.cp.v,neg(ctx.dom,ctx.p.aff) if ctl else ctx.p.aff),['ec.neg'])
        def mk(ctx,f,case,ctl=ctl):
            d=ctx.dom; ctx.a=tuple(d.var(c) for c in 'abc'); ctx.b=tuple(d.var(c) for c in 'uvw'); ctx.c=Cell(ctx.a); return [Ref(ctx.c),Ref(Cell(ctx.b)),ctl]
        ob('set_cond ctl=%x'%ctl,PT+'set_cond',[('any',None)],mk,lambda ctx,r,case,ctl=ctl:[('coordinate %d'%i,ctx.dom.equal(ctx.dom.fe(ctx.c.v[i]),(ctx.b if ctl else ctx.a)[i])) for i in range(3)],['ec.select'])
    # ------------------------------------------------------------ equality and membership
    def fin(d,n): z=d.var('z'+n,nonzero=True); x,y=d.var('x'+n),d.var('y'+n); return PtS((x,y),(d.mul(x,z),d.mul(y,z),z))
    eqc=[('finite, finite',lambda d:(fin(d,'1'),fin(d,'2'))),('infinity, finite',lambda d:(infinite(d,'1'),fin(d,'2'))),('finite, infinity',lambda d:(fin(d,'1'),infinite(d,'2'))),('infinity, infinity',lambda d:(infinite(d,'1'),infinite(d,'2')))]
    def mk(ctx,f,case): ctx.p,ctx.q=case(ctx.dom); return [ctx.p.rep,Ref(Cell(ctx.q.rep))]
    def post(ctx,r,case):
        d=ctx.dom; a,b=ctx.p.aff,ctx.q.aff
        if a is None or b is None: yield 'infinity only equals itself',r==(ONES32 if a is b else 0); return
        if r==ONES32: yield 'same coordinates',d.equal(a[0],b[0]) and d.equal(a[1],b[1])
        else: yield 'different coordinates',r==0 and any(d.known(d.sub(u,v).n)[0]==1 for u,v in zip(a,b))
    ob('Point::equals',PT+'equals',eqc,mk,post,['ec.equals'])
    def mk(ctx,f,case):
        ctx.p,ctx.q=case(ctx.dom); g=lambda p_:(p_.rep[0],p_.rep[2]); return [g(ctx.p),Ref(Cell(g(ctx.q)))]
    def post(ctx,r,case):
        d=ctx.dom; a,b=ctx.p.aff,ctx.q.aff
        if a is None or b is None: yield 'infinity only equals itself',r==(ONES32 if a is b else 0); return
        if r==ONES32: yield 'same x',d.equal(a[0],b[0])
        else: yield 'different x',r==0 and d.known(d.sub(a[0],b[0]).n)[0]==1
    ob('PointX::equals',PX+'equals',eqc,mk,post,['ec.equalsx'])
    onec=[('finite',lambda d:fin(d,'1')),('infinity',lambda d:infinite(d,'1'))]
    for fn,get in((PT+'isinfinity',lambda p_:p_.rep),(PX+'isinfinity',lambda p_:(p_.rep[0],p_.rep[2]))):
        def mk(ctx,f,case,get=get): ctx.p=case(ctx.dom); return [get(ctx.p)]
        ob(fn,fn,onec,mk,lambda ctx,r,case:[('exact',r==(ONES32 if ctx.p.aff is None else 0))],['ec.equals'])
    def onpost(ctx,x,y,yes):
        d=ctx.dom; e=d.sub(d.mul(y,y),rhs(d,ctx.A,x))
        return d.equal(e,d.const(0)) if yes else d.known(e.n)[0]==1
    def mk(ctx,f,case):
        d=ctx.dom; ctx.A=d.var('A'); ctx.p=case(d); return [curve(d,ctx.A),Ref(Cell(ctx.p.rep))]
    def post(ctx,r,case):
        if ctx.p.aff is None: yield 'infinity is on every curve',r is True; return
        yield 'accepted exactly if the equation holds',r in(True,False) and onpost(ctx,*ctx.p.aff,r)
    ob('on_curve',CV+'on_curve',onec,mk,post,['ec.on_curve'])
    # checked constructors
    for name,proj,opt in(('set_xy',0,0),('set_xyz',1,0),('point_xy_vartime',0,1),('point_xyz_vartime',1,1)):
        def mk(ctx,f,case,proj=proj,opt=opt):
            d=ctx.dom; ctx.A=d.var('A')
            if proj: ctx.p=case(d); a=list(ctx.p.rep)
            else: x,y=d.var('x'),d.var('y'); ctx.p=PtS((x,y),None); a=[x,y]
            ctx.c=Cell((d.var('a'),d.var('b'),d.var('c')))
            return [curve(d,ctx.A)]+([] if opt else [Ref(ctx.c)])+[Ref(Cell(v)) for v in a]
        def post(ctx,r,case,opt=opt):
            if opt:
                ok=isinstance(r,Enum) and r.name=='Some'; pt=r.fields[0] if ok else None
            else: ok=r==ONES32; pt=ctx.c.v; yield 'flag is all-ones or zero',r in(0,ONES32)
            if ctx.p.aff is None:
                yield 'infinity accepted',ok
                if ok: yield from check(ctx,'point',pt,None)
                return
            yield 'accepted exactly if the equation holds',onpost(ctx,*ctx.p.aff,ok)
            if ok or not opt: yield from check(ctx,'point',pt,ctx.p.aff if ok else None)
        ob(name,CV+name,onec if proj else [('any',None)],mk,post,['ec.set_xy' if not proj else 'ec.set_xyz'])
    for name,proj,opt in(('set_xy_nocheck',0,0),('set_xyz_nocheck',1,0),('point_xy_nocheck',0,1),('point_xyz_nocheck',1,1)):
        def mk(ctx,f,case,proj=proj,opt=opt):
            d=ctx.dom; a=[d.var('x'),d.var('y')]+([d.var('z')] if proj else []); ctx.a=a; ctx.c=Cell((d.var('a'),d.var('b'),d.var('c')))
            return [curve(d)]+([] if opt else [Ref(ctx.c)])+[Ref(Cell(v)) for v in a]
        def post(ctx,r,case,proj=proj,opt=opt):
            d=ctx.dom; pt=r if opt else ctx.c.v
            for i,v in enumerate(ctx.a+([] if proj else [d.const(1)])): yield 'coordinate %d'%i,d.equal(d.fe(pt[i]),v)
        ob(name,CV+name,[('any',None)],mk,post,['ec.set_xyz'])
    # coordinates
    def mk(ctx,f,case): ctx.p=case(ctx.dom); return [ctx.p.rep]
    def post(ctx,r,case):
        d=ctx.dom; w=ctx.p.aff or (d.const(0),d.const(0))
        for i in(0,1): yield 'xy'[i],d.equal(d.fe(r[i]),w[i])
    ob('to_xy',PT+'to_xy',onec,mk,post,['ec.to_xy'])
    def post(ctx,r,case):
        d=ctx.dom
        if ctx.p.aff is None: yield 'None for infinity',isinstance(r,Enum) and r.name=='None'; return
        ok=isinstance(r,Enum) and r.name=='Some'; yield 'Some for a finite point',ok
        if ok:
            for i in(0,1): yield 'xy'[i],d.equal(d.fe(r.fields[0][i]),ctx.p.aff[i])
    ob('to_xy_vartime',PT+'to_xy_vartime',onec,mk,post,['ec.to_xy'])
    for name,idx in(('to_xz',(0,2)),('to_xyz',(0,1,2))):
        ob(name,PT+name,onec,mk,lambda ctx,r,case,idx=idx:[('coordinate %d'%i,ctx.dom.equal(ctx.dom.fe(r[k]),ctx.p.rep[i])) for k,i in enumerate(idx)],['ec.to_xy'])
    # completing an x-coordinate
    for name,into in(('complete_pointX_into',1),('complete_pointX',0)):
        def mk(ctx,f,case,into=into):
            d=ctx.dom; ctx.A=d.var('A'); ctx.p=case(d); ctx.c=Cell((d.var('a'),d.var('b'),d.var('c')))
            return [curve(d,ctx.A)]+([Ref(ctx.c)] if into else [])+[Ref(Cell((ctx.p.rep[0],ctx.p.rep[2])))]
        def post(ctx,r,case,into=into):
            d=ctx.dom; pt,fl=(ctx.c.v,r) if into else r
            if ctx.p.aff is None: yield from check(ctx,'infinity completes to itself: result',pt,None); return
            x=ctx.p.aff[0]; w=rhs(d,ctx.A,x)
            if fl==ONES32:
                X,Y,Z=[d.fe(v) for v in pt]
                yield 'finite',d.known(d.norm(Z.n))[0]==1
                yield 'the same x',d.equal(X,d.mul(x,Z))
                yield 'on the curve',d.equal(d.mul(Y,Y),d.mul(w,d.mul(Z,Z)))
            else:
                yield 'failure flag is zero and the result is infinity',fl==0 and d.equal(d.fe(pt[2]),d.const(0))
                yield 'failure only if no y exists',d.known(w.n)[0]==1 and d.sqclass(w)==-1
        ob(name,CV+name,onec,mk,post,['ec.complete'])
    # curve construction
    def mknew(ctx): ctx.A=ctx.dom.var('A'); return [Ref(Cell(ctx.A))]
    def newrun(env,res):
        f=env.fn(CV+'new'); out=[]
        for o in explore(env.crate,lambda:Field(P,'fp2',C2()),f,mknew):
            res.paths+=1; note(res,o.ctx); d=o.ctx.dom; A=o.ctx.A
            if o.kind=='return':
                out.append(('only non-singular curves are accepted',d.known(d.sub(d.mul(A,A),d.const(4)).n)[0]==1,''))
                out.append(('A',d.equal(d.fe(o.ret[0]),A),'')); out.append(('A24',d.equal(d.scale(d.fe(o.ret[1]),4),d.add(A,d.const(2))),''))
            else: out.append(('panics only for A=2 or A=-2',d.equal(A,d.const(2)) or d.equal(A,d.const(-2)),o.msg))
        return out
    obs.append(Ob(p,'Curve::new',CV+'new','field',newrun,search=['ec.curve_new']))
    def mk(ctx,f,case): d=ctx.dom; ctx.A=d.var('A'); return [Ref(Cell(curve(d,ctx.A)))]
    ob('get_constant',CV+'get_constant',[('any',None)],mk,lambda ctx,r,case:[('A',ctx.dom.equal(ctx.dom.fe(r),ctx.A))],['ec.curve_new'])
    import prop_loop; obs.append(prop_loop.curve_double_iter(p))
    products(obs,p)
    return obs

class Gp(Sym):
    """abstract point: name and the power of two it was multiplied with"""
    __slots__=('n','k')
    def __init__(self,n,k): self.n=n; self.k=k
def repeated(obs,p):
    """double_iter by the contract of doubling: n iterations give [2^n]P, shown by an invariant over the loop counter
    for every n up to the bound used anywhere in the scheme"""
    C={}
    def dself(ctx,a): v=ctx.load(a[1]); ctx.store(a[1],Gp(v.n,v.k+1)); return ()
    def dval(ctx,a): v=ctx.load(a[1]); return Gp(v.n,v.k+1)
    def dinto(ctx,a): v=ctx.load(a[2]); ctx.store(a[1],Gp(v.n,v.k+1)); return ()
    C.update({CV+'double_self':dself,CV+'double':dval,CV+'double_into':dinto})
    NS=list(range(0,40))+[63,64,65,126,127,128,255,256,257,500,632,633,634]
    def run(env,res):
        f=env.fn(CV+'double_iter'); out=[]
        for n in NS:
            for o in explore(env.crate,lambda:Domain(dict(C)),f,lambda ctx:[Opaque('curve'),Ref(Cell(Gp('P',0))),n]):
                res.paths+=1; note(res,o.ctx)
                out.append(('n=%d'%n,o.kind=='return' and isinstance(o.ret,Gp) and o.ret.n=='P' and o.ret.k==n,o.msg))
        return out
    obs.append(Ob(p,'double_iter',CV+'double_iter','exec',run,search=['ec.double_iter'],bound='iteration counts 0..39 and selected up to 634 (points unbounded)'))
def products(obs,p):
    """the product of two curves works componentwise with the right curve"""
    EP='ecFESTA::EllipticProduct::'
    class S(Sym):
        def __init__(self,*t): self.t=t
        def __eq__(self,o): return isinstance(o,S) and self.t==o.t
        def __hash__(self): return hash(self.t)
    g=lambda ctx,v: ctx.load(v) if isinstance(v,Ref) else v
    C={}
    for k in('add','double','sub','mul','double_iter'): C[CV+k]=(lambda k:lambda ctx,a:S(k,*[g(ctx,v) for v in a]))(k)
    E1,E2,P1,P2,Q1,Q2=[S(x) for x in('E1','E2','P1','P2','Q1','Q2')]
    for name,args,want in(('add',lambda:[Ref(Cell((P1,P2))),Ref(Cell((Q1,Q2)))],(S('add',E1,P1,Q1),S('add',E2,P2,Q2))),
                          ('double',lambda:[Ref(Cell((P1,P2)))],(S('double',E1,P1),S('double',E2,P2))),
                          ('double_iter',lambda:[Ref(Cell((P1,P2))),7],(S('double_iter',E1,P1,7),S('double_iter',E2,P2,7)))):
        def run(env,res,name=name,args=args,want=want):
            f=env.fn(EP+name); out=[]
            for o in explore(env.crate,lambda:Domain(dict(C)),f,lambda ctx:[(E1,E2)]+args()):
                res.paths+=1; note(res,o.ctx); out.append(('componentwise',o.kind=='return' and o.ret==want,str(o.msg)))
            return out
        obs.append(Ob(p,'EllipticProduct::'+name,EP+name,'exec',run,search=['ec.product']))
