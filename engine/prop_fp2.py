"""Contracts of finitefield::fp2_gen (instantiated by fields::FpFESTAExt): arithmetic, batch inversion,
selection, encoding, square and fourth roots, over the contracts of the base field."""
import z3
from spec import *
from obl import *
from prop_fp import field_run,bv_run,operator_obs,refs,bvret,SB
from bv import *
from field import *

def pv(d,n): return (d.var(n+'0'),d.var(n+'1'))
def peq(d,x,y):
    if not isinstance(x,tuple) or len(x)!=2: return False
    return d.equal(d.fe(x[0]),y[0]) and d.equal(d.fe(x[1]),y[1])
def padd_(d,x,y): return (d.add(x[0],y[0]),d.add(x[1],y[1]))
def psub(d,x,y): return (d.sub(x[0],y[0]),d.sub(x[1],y[1]))
def pneg(d,x): return (d.neg(x[0]),d.neg(x[1]))
def pmul(d,x,y): return (d.sub(d.mul(x[0],y[0]),d.mul(x[1],y[1])),d.add(d.mul(x[0],y[1]),d.mul(x[1],y[0])))
def pscl(d,x,k): return (d.scale(x[0],k),d.scale(x[1],k))
def pz(d): return (d.const(0),d.const(0))
def pfe(d,x): return (d.fe(x[0]),d.fe(x[1]))
def iszero_p(d,y): return d.equal(y[0],d.const(0)) and d.equal(y[1],d.const(0))
def divok(d,z,x,y):
    z=pfe(d,z)
    if iszero_p(d,y): return peq(d,z,pz(d))
    return peq(d,pmul(d,z,y),x)
SPEC2={'Add':('add',padd_),'Sub':('sub',psub),'Mul':('mul',pmul),'Div':('div',None),'neg':('neg',pneg)}
ONESM=ONES32

def c04(crate):
    obs=[]; p='C04'
    def ob(label,name,mk,post,search,C=None,more=None,level='fp',bound=None,w=1,timeout=300,prefix=FP,elem='Fp'):
        obs.append(Ob(p,'Fp2::'+label,FP2+name,'field',field_run(FP2+name,mk,post,prefix,elem,level,C,more),search=search,bound=bound,weight=w,timeout=timeout))
    def un(name,f,setter,op):
        fn=FP2+name
        def mk(ctx):
            x=pv(ctx.dom,'x'); ctx.x=x; return refs(crate.get(fn),[x],ctx)
        ob(name,name,mk,lambda ctx,r:[('value',peq(ctx.dom,ctx.cells[0].v if setter else r,f(ctx.dom,ctx.x)))],['fp2.'+op])
    for nm,f in(('neg',pneg),('conj',lambda d,x:(x[0],d.neg(x[1]))),('half',lambda d,x:pscl(d,x,(P+1)//2)),('square',lambda d,x:pmul(d,x,x)),
                ('mul2',lambda d,x:pscl(d,x,2)),('mul3',lambda d,x:pscl(d,x,3)),('mul4',lambda d,x:pscl(d,x,4)),('mul8',lambda d,x:pscl(d,x,8))):
        un('set_'+nm,f,True,nm)
        if nm!='neg': un(nm,f,False,nm)
    def bi(name,f,setter,op):
        fn=FP2+name
        def mk(ctx):
            x=pv(ctx.dom,'x'); y=pv(ctx.dom,'y'); ctx.x=x; ctx.y=y; return refs(crate.get(fn),[x,y],ctx)
        def post(ctx,r):
            yield 'value',peq(ctx.dom,ctx.cells[0].v if setter else r,f(ctx.dom,ctx.x,ctx.y))
            if ctx.cells[1]: yield 'operand unchanged',ctx.cells[1].v is ctx.y
        ob(name,name,mk,post,['fp2.'+op])
    bi('set_add',padd_,True,'add'); bi('set_sub',psub,True,'sub'); bi('set_mul',pmul,True,'mul'); bi('mul_new',pmul,False,'mul'); bi('mul_old',pmul,False,'mul')
    for nm,setter in(('set_mul_small',True),('mul_small',False)):
        def mk(ctx,nm=nm):
            d=ctx.dom; x=pv(d,'x'); k=d.var('k'); ctx.x=x; ctx.k=k; return refs(crate.get(FP2+nm),[x],ctx)+[KInt(k)]
        ob(nm,nm,mk,lambda ctx,r,s=setter:[('value',peq(ctx.dom,ctx.cells[0].v if s else r,(ctx.dom.mul(ctx.x[0],ctx.k),ctx.dom.mul(ctx.x[1],ctx.k))))],['fp2.mul_small'])
    # inversion, division
    for nm,setter in(('set_invert',True),('invert',False)):
        def mk(ctx,nm=nm):
            x=pv(ctx.dom,'x'); ctx.x=x; return refs(crate.get(FP2+nm),[x],ctx)
        def post(ctx,r,s=setter):
            d=ctx.dom
            yield 'value',divok(d,ctx.cells[0].v if s else r,(d.const(1),d.const(0)),ctx.x)
        ob(nm,nm,mk,post,['fp2.invert'])
    def mkd(ctx):
        d=ctx.dom; ctx.x=pv(d,'x'); ctx.y=pv(d,'y'); ctx.c=[Cell(ctx.x),Cell(ctx.y)]; return [Ref(c) for c in ctx.c]
    ob('set_div','set_div',mkd,lambda ctx,r:[('value',divok(ctx.dom,ctx.c[0].v,ctx.x,ctx.y)),('divisor unchanged',ctx.c[1].v is ctx.y)],['fp2.div'])
    # tests
    def mkz(ctx): ctx.x=pv(ctx.dom,'x'); return refs(crate.get(FP2+'iszero'),[ctx.x],ctx)
    def postz(ctx,r):
        d=ctx.dom
        if r==ONESM: yield 'all-ones only for zero',iszero_p(d,ctx.x)
        else: yield 'zero only for non-zero',r==0 and any(d.known(c.n)[0]==1 for c in ctx.x)
    ob('iszero','iszero',mkz,postz,['fp2.iszero'])
    def mke(name):
        def mk(ctx): ctx.x=pv(ctx.dom,'x'); ctx.y=pv(ctx.dom,'y'); return refs(crate.get(name),[ctx.x,ctx.y],ctx)
        return mk
    def poste(t,f):
        def post(ctx,r):
            d=ctx.dom
            if r==t: yield 'equal',peq(d,ctx.x,ctx.y)
            else: yield 'different',r==f and type(r)==type(f) and any(d.known(d.sub(a,b).n)[0]==1 for a,b in zip(ctx.x,ctx.y))
        return post
    ob('equals','equals',mke(FP2+'equals'),poste(ONESM,0),['fp2.equals'])
    eqn='<%s as PartialEq>::eq'%FP2T
    obs.append(Ob(p,'Fp2::eq',eqn,'field',field_run(eqn,mke(eqn),poste(True,False)),search=['fp2.equals']))
    # selection
    for ctl in(0,ONESM):
        lab=' ctl=%d'%(1 if ctl else 0)
        def args(name,pre,post,ctl=ctl,lab=lab):
            def mk(ctx):
                d=ctx.dom; ctx.v=[pv(d,c) for c in 'abc']; ctx.cells=[Cell(v) for v in ctx.v]
                return [Ref(ctx.cells[i]) for i in pre]+[ctl]
            ob(name+lab,name,mk,post,['fp2.'+{'set_select':'select'}.get(name,name)])
        args('set_select',[2,0,1],lambda ctx,r,c=ctl:[('value',peq(ctx.dom,ctx.cells[2].v,ctx.v[1 if c else 0]))])
        args('select',[0,1],lambda ctx,r,c=ctl:[('value',peq(ctx.dom,r,ctx.v[1 if c else 0]))])
        args('set_cond',[0,1],lambda ctx,r,c=ctl:[('value',peq(ctx.dom,ctx.cells[0].v,ctx.v[1 if c else 0]))])
        args('set_condneg',[0],lambda ctx,r,c=ctl:[('value',peq(ctx.dom,ctx.cells[0].v,pneg(ctx.dom,ctx.v[0]) if c else ctx.v[0]))])
        args('condswap',[0,1],lambda ctx,r,c=ctl:[('first',peq(ctx.dom,ctx.cells[0].v,ctx.v[1 if c else 0])),('second',peq(ctx.dom,ctx.cells[1].v,ctx.v[0 if c else 1]))])
    # operators
    operator_obs(obs,p,FP2T,FP,'Fp','fp2.',crate,mkvar=pv,spec=SPEC2,eqf=lambda d,x,y:peq(d,x,y),divf=divok)
    # batch inversion
    def binv(n,zeros):
        def mk(ctx):
            d=ctx.dom; ctx.xs=[d.const(0) if i in zeros else d.var('x%d'%i,nonzero=True) for i in range(n)]
            ctx.c=Cell(tuple(ctx.xs)); return [Ref(ctx.c,(),(0,n))]
        def post(ctx,r):
            d=ctx.dom
            yield 'same number of elements',len(ctx.c.v)==n
            for i in range(n): yield 'element %d'%i,d.equal(d.fe(ctx.c.v[i]),d.const(0) if i in zeros else d.inv(ctx.xs[i]))
        return mk,post
    C2=fp_contracts(FP2,'Fp2')
    small=[(n,[i for i in range(n) if m>>i&1]) for n in range(6) for m in range(1<<n)]
    for n,zs in small+[(6,[0]),(6,[5]),(7,[2,3]),(8,range(8)),(199,[7]),(200,[]),(201,[]),(201,[200]),(201,[0,199]),(202,[200]),(400,[0]),(401,[400]),(403,[199,201]),(600,[])]:
        mk,post=binv(n,set(zs)); ob('batch_invert, %d elements, zeros at %s'%(n,list(zs)),'batch_invert',mk,post,['fp2.batch_invert','fp2.batch_invert_n'],C=C2,level='fp2',bound='%d elements (contents unbounded), zeros at %s'%(n,list(zs)),w=5 if n>9 else 1)
    encode_obs(obs,p)
    return obs

# ---------------------------------------------------------------- encoding
class FByte(Sym):
    """byte i of the canonical encoding of field element number k"""
    __slots__=('k','i')
    def __init__(self,k,i): self.k=k; self.i=i
    def __eq__(self,o): return isinstance(o,FByte) and (self.k,self.i)==(o.k,o.i)
    def __hash__(self): return hash((self.k,self.i))
def encode_obs(obs,p):
    def enc(env,res):
        fn=FP2+'encode'; f=env.fn(fn); out=[]
        def h(ctx,a):
            v=a[0]; v=ctx.load(v) if isinstance(v,Ref) else v
            return tuple(FByte(v,i) for i in range(ENC))
        def mk(ctx):
            x=pv(ctx.dom,'x'); ctx.x=x; return refs(f,[x],ctx)
        for o in explore(env.crate,lambda:Field(P,'fp',{FP+'encode':h}),f,mk):
            res.paths+=1; note(res,o.ctx)
            if o.kind!='return': out.append(('no panic',False,o.msg)); continue
            want=tuple(FByte(o.ctx.x[j],i) for j in(0,1) for i in range(ENC))
            out.append(('real part then imaginary part',tuple(o.ret)==want,''))
        return out
    obs.append(Ob(p,'Fp2::encode',FP2+'encode','exec',enc,search=['fp2.encode']))
    def dec(env,res):
        fn=FP2+'decode'; f=env.fn(fn); out=[]
        for n in [2*ENC]+list(range(0,2*ENC))+list(range(2*ENC+1,2*ENC+180)):
            def h(ctx,a):
                d=ctx.dom; bs=ctx.load(a[0])
                if len(bs)!=ENC: return (d.const(0),0)
                ks=[b for b in bs]
                if not all(isinstance(b,FByte) and b.i==ks[0].i+j for j,b in enumerate(ks)): raise Unsupported('decoded bytes are not a window')
                off=ks[0].i
                if ctx.decide(2,'valid'): ctx.dl[off]=0; return (d.const(0),0)
                ctx.dl[off]=d.var('e%d'%off); return (ctx.dl[off],ONES32)
            def mk(ctx):
                ctx.dl={}; return [Ref(Cell(tuple(FByte(0,i) for i in range(n))),(),(0,n))]
            C=fp_contracts(FP,'Fp'); C[FP+'decode']=h
            for o in explore(env.crate,lambda:Field(P,'fp',C),f,mk):
                res.paths+=1; note(res,o.ctx)
                if o.kind!='return': out.append(('length %d: no panic'%n,False,o.msg)); continue
                d=o.ctx.dom; el,fl=o.ret; dl=o.ctx.dl
                if n!=2*ENC: out.append(('length %d rejected'%n,fl==0 and peq(d,pfe(d,el),pz(d)),'')); continue
                # a half that was not decoded does not matter once the other one is invalid
                if any(v==0 for v in dl.values() if isinstance(v,int)): out.append(('invalid half: zero and failure',fl==0 and peq(d,pfe(d,el),pz(d)),''))
                else: out.append(('both halves decoded in place',set(dl)=={0,ENC} and fl==ONES32 and peq(d,pfe(d,el),(dl.get(0,d.const(0)),dl.get(ENC,d.const(0)))),''))
        return out
    obs.append(Ob(p,'Fp2::decode',FP2+'decode','field',dec,search=['fp2.decode'],bound='slice lengths 0..503 (contents unbounded)'))

# ---------------------------------------------------------------- roots
def c05(crate):
    obs=[]; p='C05'
    def ob(label,name,mk,post,search,C=None,w=4): obs.append(Ob(p,'Fp2::'+label,FP2+name,'field',field_run(FP2+name,mk,post,FP,'Fp','fp',C),search=search,weight=w))
    for name,setter in(('set_sqrt',1),('sqrt',0)):
        def res_(ctx,ret,setter=setter): return (ctx.cells[0].v,ret) if setter else ret
        def mk(ctx,name=name): x=pv(ctx.dom,'x'); ctx.x=x; return refs(crate.get(FP2+name),[x],ctx)
        def post(ctx,ret,res_=res_):
            d=ctx.dom; y,fl=res_(ctx,ret); y=pfe(d,y)
            if fl==ONES32:
                yield 'the returned value squares to the input',peq(d,pmul(d,y,y),ctx.x)
                if d.equal(y[0],d.const(0)): yield 'imaginary part even when the real part is zero',d.equal(y[1],d.const(0)) or d.find_par(y[1])==0
                else: yield 'real part even',d.find_par(y[0])==0
            else: yield 'zero on failure',fl==0 and peq(d,y,pz(d))
        ob(name+': root and sign',name,mk,post,['fp2.sqrt'])
        def mksq(ctx,name=name):
            d=ctx.dom; a,b=d.var('a'),d.var('b'); x=pmul(d,(a,b),(a,b)); ctx.x=x
            d.sqrt_hints=[d.R.add(d.mul(a,a).n,d.mul(b,b).n)]
            return refs(crate.get(FP2+name),[x],ctx)
        ob(name+': succeeds on every square',name,mksq,lambda ctx,ret,res_=res_:[('success',res_(ctx,ret)[1]==ONES32)],['fp2.sqrt'])
    for name,setter in(('set_fourth_root',1),('fourth_root',0)):
        def res_(ctx,ret,setter=setter): return (ctx.cells[0].v,ret) if setter else ret
        def mk(ctx,name=name): x=pv(ctx.dom,'x'); ctx.x=x; return refs(crate.get(FP2+name),[x],ctx)
        def post(ctx,ret,res_=res_):
            d=ctx.dom; y,fl=res_(ctx,ret); y=pfe(d,y)
            if fl==ONES32:
                s=pmul(d,y,y)
                yield 'the returned value to the fourth is the input',peq(d,pmul(d,s,s),ctx.x)
            else: yield 'zero on failure',fl==0 and peq(d,y,pz(d))
        ob(name+': root',name,mk,post,['fp2.fourth_root'],w=6)
        def mk4(ctx,name=name):
            d=ctx.dom; a,b=d.var('a'),d.var('b')
            x=pmul(d,(a,b),(a,b)); x=pmul(d,x,x); ctx.x=x
            aa,bb=d.mul(a,a).n,d.mul(b,b).n; R_=d.R
            d.sqrt_hints=[R_.add(aa,bb),R_.sub(aa,bb),R_.add(a.n,b.n),R_.sub(a.n,b.n)]
            return refs(crate.get(FP2+name),[x],ctx)
        ob(name+': succeeds on every fourth power',name,mk4,lambda ctx,ret,res_=res_:[('success',res_(ctx,ret)[1]==ONES32)],['fp2.fourth_root'],w=8)
    # quadratic character of F_p^2: chi(x) = chi_p(norm)
    def mkl(ctx): x=pv(ctx.dom,'x'); ctx.x=x; return refs(crate.get(FP2+'legendre'),[x],ctx)
    def postl(ctx,r):
        d=ctx.dom; x=ctx.x; n=d.add(d.mul(x[0],x[0]),d.mul(x[1],x[1]))
        k=d.known(n.n)[0]
        if r==0: yield 'zero only for zero',iszero_p(d,x)
        else: yield 'character of the norm',r in(1,-1) and k==1 and d.sqclass(n)==r
    ob('legendre','legendre',mkl,postl,['fp2.legendre'])
    fproots(obs,p,crate)
    return obs
class RootDom(Field):
    """Base-field domain for fixed-exponent ladders: elements are c*x^e with arbitrarily large e.  Comparisons of
    such monomials are decided by Fermat's little theorem where it applies and forked (and remembered) otherwise."""
    def fermat(self,f):
        return FE({tuple((v,(e-1)%(P-1)+1) for v,e in m):c for m,c in f.n.items()},f.d)
    def iszero(self,ctx,f):
        f=self.fermat(f); n=self.norm(f.n)
        if len(n)==1 and () not in n:
            (m,_),=n.items()
            if all(Field.iszero(self,ctx,FE({((v,1),):1})) for v,_ in m): return True
            return False
        return Field.iszero(self,ctx,f)
    def same(self,ctx,a,b):
        a,b=self.fermat(a),self.fermat(b)
        if self.equal(a,b): return True
        for x,y,t in self.facts:
            if t is not None and ((self.equal(a,x) and self.equal(b,y)) or (self.equal(a,y) and self.equal(b,x))): return t
        if self.iszero(ctx,a): return self.iszero(ctx,b)
        t=ctx.decide(2,'equal')==1
        self.facts.append((a,b,t)); return t
def fproots(obs,p,crate):
    C=fp_contracts(FP,'Fp')
    for k in('legendre','sqrt','set_sqrt','fourth_root','set_fourth_root'): C.pop(FP+k)
    def equals(ctx,a):
        x,y=[ctx.dom.fe(ctx.load(v) if isinstance(v,Ref) else v) for v in a]
        return ONES32 if ctx.dom.same(ctx,x,y) else 0
    C[FP+'equals']=equals
    for name,setter,k in(('set_sqrt',1,2),('sqrt',0,2),('set_fourth_root',1,4),('fourth_root',0,4)):
        fn=FP+name
        def run(env,res,fn=fn,setter=setter,k=k):
            f=env.fn(fn); out=[]
            def dom(): d=RootDom(P,'fp',dict(C)); d.facts=[]; return d
            def mk(ctx): ctx.x=ctx.dom.var('x'); return refs(f,[ctx.x],ctx)
            for o in explore(env.crate,dom,f,mk):
                res.paths+=1; note(res,o.ctx)
                if o.kind!='return': out.append(('no panic',False,o.msg)); continue
                d=o.ctx.dom; y,fl=(o.ctx.cells[0].v,o.ret) if setter else o.ret
                y=d.fe(y)
                if fl==ONES32:
                    pw=d.fermat(FE(d.R.pow(y.n,k),d.R.pow(y.d,k)))
                    out.append(('the returned value to the power %d is the input'%k,d.equal(pw,o.ctx.x) or any(t and d.equal(pw,a) and d.equal(o.ctx.x,b) for a,b,t in d.facts),''))
                    out.append(('the returned root is even',d.equal(y,d.const(0)) or d.find_par(y)==0,''))
                else: out.append(('zero on failure',fl==0 and d.equal(y,d.const(0)),''))
            def mk2(ctx):
                s=ctx.dom.var('s'); ctx.x=FE(ctx.dom.R.pow(s.n,k)); return refs(f,[ctx.x],ctx)
            for o in explore(env.crate,dom,f,mk2):
                res.paths+=1; note(res,o.ctx)
                if o.kind!='return': out.append(('no panic (powers)',False,o.msg)); continue
                out.append(('succeeds on every %s'%('square' if k==2 else 'fourth power'),(o.ret if setter else o.ret[1])==ONES32,''))
            return out
        obs.append(Ob(p,'Fp::'+name,fn,'exponent',run,search=['fp.sqrt' if k==2 else 'fp.fourth_root'],weight=3))
