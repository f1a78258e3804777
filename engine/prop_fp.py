"""Contracts of finitefield::fp_gen (the base field, as instantiated by fields::FpFESTA) and of utils64."""
import z3
from spec import *
from obl import *
from limbspec import *
from limb import Limb
from bv import *
from field import *

# ------------------------------------------------------------------ Limb back end
def limb_run(fn,nin,spec,extra=None,out=0,ret=False,fixed=None,rng=True,divisor=None):
    """spec(dom,inputs...) -> (mult,target): mult*result == target (mod p), result canonical"""
    def run(env,res):
        f=env.fn(fn); out_=[]
        def args(ctx):
            ctx.ins=[]; ctx.cells=[]; a=[]
            for k in range(nin):
                l,v=fp_input(ctx.dom,'abcd'[k]); ctx.ins.append(v); cell=Cell((l,)); ctx.cells.append(cell)
                byref=f.args[k].startswith('&') if f.args else True
                a.append(Ref(cell) if byref else (l,))
            if extra: a+=extra(ctx)
            return a
        for o in explore(env.crate,lambda:Limb({FP+'iszero':h_iszero},P,NL),f,args):
            res.paths+=1; note(res,o.ctx)
            if o.kind!='return': out_.append(('no panic',False,o.msg)); continue
            d=o.ctx.dom
            L=(o.ret if ret else o.ctx.cells[out].v)[0]
            if divisor: res.vcs+=quotient_lemmas(d,divisor)
            m,tg=spec(d,*o.ctx.ins)
            ok,msg,nc=check_mod(d,limbs_value(d,L),m,tg,P,want_range=rng)
            out_.append(('value',ok if ok else (None if ok is None else False),msg or '%d cases'%nc))
            out_.append(('limbs are 64-bit words',limb_ranges_ok(d,L),''))
            for k in range(nin):
                if k!=out or ret:
                    c=o.ctx.cells[k].v[0]
                    out_.append(('argument %d unchanged'%k,all(x.poly==y.poly for x,y in zip(c,o.ctx.argl[k])) if hasattr(o.ctx,'argl') else True,''))
        return out_
    return run
def neg1(a): return pscale(a,-1)
LIMB=[('set_add',2,lambda d,a,b:(1,padd(a,b)),['fp.add']),
 ('set_sub',2,lambda d,a,b:(1,padd(a,b,-1)),['fp.sub']),
 ('set_neg',1,lambda d,a:(1,neg1(a)),['fp.neg']),
 ('set_half',1,lambda d,a:(2,a),['fp.half']),
 ('set_mul2',1,lambda d,a:(1,pscale(a,2)),['fp.mul2']),
 ('set_montyred',1,lambda d,a:(R,a),['fp.encode']),
 ('set_mul',2,lambda d,a,b:(R,d.pmul(a,b)),['fp.mul']),
 ('set_square',1,lambda d,a:(R,d.pmul(a,a)),['fp.square'])]

# ------------------------------------------------------------------ BV back end
def bv_words(dom,name): return tuple(dom.word('%s%d'%(name,i),64) for i in range(NL))
def T(dom,v,ty='u64'): return dom.lift(v,ty)
def allz(dom,ws): return z3.And(*[T(dom,w)==0 for w in ws])
def alleq(dom,xs,ys): return z3.And(*[T(dom,x)==T(dom,y) for x,y in zip(xs,ys)])
def bv_run(fn,mk,post,contracts=None):
    """post(ctx,ret) -> [(label, z3 goal)]"""
    def run(env,res):
        f=env.fn(fn); out=[]
        for o in explore(env.crate,lambda:BVDom(dict(contracts or {})),f,mk):
            res.paths+=1; note(res,o.ctx)
            if o.kind!='return': out.append(('no panic',False,o.msg)); continue
            for lab,g in post(o.ctx,o.ret):
                if isinstance(g,bool): out.append((lab,g,'')); continue
                s,m=o.ctx.dom.prove(g)
                out.append((lab,{'proved':True,'refuted':False,'unknown':None}[s],'counterexample %s'%str(m)[:300] if m is not None else s))
        return out
    return run
def mk_el(n,ctlpos=None,ctl=None):
    def mk(ctx):
        d=ctx.dom; ctx.w=[bv_words(d,'abcd'[i]) for i in range(n)]; ctx.cells=[Cell((w,)) for w in ctx.w]
        a=[Ref(c) for c in ctx.cells]
        if ctl is not None: a.append(ctl)
        return a
    return mk
def byval(mk,k=0):
    def m(ctx):
        a=mk(ctx); a[k]=ctx.load(a[k]); return a
    return m
def bvret(ctx,r): return ctx.dom.lift(r,'u32')
def utils64(obs,prop):
    U='finitefield::utils64::'
    def mk(tys):
        def m(ctx):
            d=ctx.dom; ctx.in_=[]
            for i,ty in enumerate(tys):
                ctx.in_.append(d.word('x%d'%i,INT_TYPES[ty][0]))
            return list(ctx.in_)
        return m
    def E(x,n): return z3.ZeroExt(n-x.size(),x)
    def addc(ctx,r):
        x,y,c=[w.t for w in ctx.in_]; d,co=T(ctx.dom,r[0]),ctx.dom.lift(r[1],'u8')
        ctx.dom.pc.append(z3.ULE(c,1))
        return [('x+y+c = d+2^64 c\'',E(x,72)+E(y,72)+E(c,72)==E(d,72)+(E(co,72)<<64)),('carry is a bit',z3.ULE(co,1))]
    def subb(ctx,r):
        x,y,c=[w.t for w in ctx.in_]; d,co=T(ctx.dom,r[0]),ctx.dom.lift(r[1],'u8')
        ctx.dom.pc.append(z3.ULE(c,1))
        return [('x-y-c = d-2^64 c\'',E(x,72)-E(y,72)-E(c,72)==E(d,72)-(E(co,72)<<64)),('borrow is a bit',z3.ULE(co,1))]
    def mulspec(f):
        def p(ctx,r):
            xs=[w.t for w in ctx.in_]; n=130
            lo,hi=T(ctx.dom,r[0]),T(ctx.dom,r[1])
            return [('value',f([E(x,n) for x in xs])==E(lo,n)+(E(hi,n)<<64))]
        return p
    def x2(ctx):
        # the caller must keep the sum below 2^128
        pass
    def mulx2(k):
        def p(ctx,r):
            xs=[E(w.t,130) for w in ctx.in_]
            lo,hi=T(ctx.dom,r[0]),T(ctx.dom,r[1])
            s=xs[0]*xs[1]+xs[2]*xs[3]+(xs[4] if k else 0)
            ctx.dom.pc.append(z3.ULT(s,z3.BitVecVal(1<<128,130)))
            return [('value when the sum fits in 128 bits',s==E(lo,130)+(E(hi,130)<<64))]
        return p
    def sg(ctx,r):
        x=ctx.in_[0].t; return [('all-ones iff the top bit is set',T(ctx.dom,r)==z3.If(z3.Extract(63,63,x)==1,z3.BitVecVal(-1,64),z3.BitVecVal(0,64)))]
    def lz(ctx,r):
        x=ctx.in_[0].t
        e=z3.BitVecVal(64,32)
        for i in range(64): e=z3.If(z3.Extract(i,i,x)==1,z3.BitVecVal(63-i,32),e)
        return [('number of leading zeros',ctx.dom.lift(r,'u32')==e)]
    for n,tys,post in(('addcarry_u64',['u64','u64','u8'],addc),('subborrow_u64',['u64','u64','u8'],subb),
        ('umull',['u64']*2,mulspec(lambda v:v[0]*v[1])),('umull_add',['u64']*3,mulspec(lambda v:v[0]*v[1]+v[2])),('umull_add2',['u64']*4,mulspec(lambda v:v[0]*v[1]+v[2]+v[3])),
        ('umull_x2',['u64']*4,mulx2(0)),('umull_x2_add',['u64']*5,mulx2(1)),('sgnw',['u64'],sg),('lzcnt',['u64'],lz)):
        obs.append(Ob(prop,'utils64::'+n,U+n,'z3-bv',bv_run(U+n,mk(tys),post),search=['fp.mul','fp.square','fp.sop','fp.add','fp.sub','fp.div'],timeout=100))

# ------------------------------------------------------------------ Field back end
def field_run(fn,mk,post,prefix=FP,elem='Fp',level='fp',contracts=None,more=None):
    """post(ctx,ret) -> [(label,bool)]"""
    def run(env,res):
        f=env.fn(fn); out=[]
        def dom():
            C=dict(contracts) if contracts is not None else fp_contracts(prefix,elem)
            if more: C.update(more)
            return Field(P,level,C)
        for o in explore(env.crate,dom,f,mk):
            res.paths+=1; note(res,o.ctx)
            if o.kind!='return': out.append(('no panic',False,o.msg)); continue
            for c in post(o.ctx,o.ret): out.append(c if len(c)>2 else (c[0],c[1],''))
        return out
    return run
def refs(f,vals,ctx):
    """arguments by value or reference according to the signature"""
    ctx.cells=[]; out=[]
    for t,v in zip(f.args,vals):
        if t.startswith('&'):
            c=Cell(v); ctx.cells.append(c); out.append(Ref(c))
        else: ctx.cells.append(None); out.append(v)
    return out
OPSPEC={'Add':('add',lambda d,a,b:d.add(a,b)),'Sub':('sub',lambda d,a,b:d.sub(a,b)),'Mul':('mul',lambda d,a,b:d.mul(a,b)),
        'Div':('div',lambda d,a,b:d.mul(a,d.inv(b)))}
def operator_obs(obs,prop,T_,prefix,elem,searchpfx,crate,contracts=None,level='fp',mkvar=None,spec=None,eqf=None,divf=None):
    """every operator impl of the type: all value/reference forms"""
    mod,ty=T_.rsplit('::',1)
    sp=spec or OPSPEC
    mkv=mkvar or (lambda d,n:d.var(n))
    eq=eqf or (lambda d,x,y:d.equal(d.fe(x),y))
    def arith(tr,lhs,rhs,assign):
        nm,f=sp[tr]
        m=nm+('_assign' if assign else '')
        fn='<%s::%s as %s<%s>>::%s'%(mod,lhs,tr+('Assign' if assign else ''),rhs,m)
        def mk(ctx):
            d=ctx.dom; a=mkv(d,'a'); b=mkv(d,'b'); ctx.ab=(a,b)
            return refs(ENVF(fn),[a,b],ctx)
        def post(ctx,ret):
            d=ctx.dom; a,b=ctx.ab
            r=ctx.cells[0].v if assign else ret
            if tr=='Div' and divf: yield 'value',divf(d,r,a,b)
            else: yield 'value',eq(d,r,div_spec(d,a,b,eq) if tr=='Div' else f(d,a,b))
            if not assign and ctx.cells[0]: yield 'left operand unchanged',ctx.cells[0].v is a
            if ctx.cells[1]: yield 'right operand unchanged',ctx.cells[1].v is b
        def ENVF(n): return crate.get(n)
        obs.append(Ob(prop,fn.replace(mod+'::',''),fn,'field',field_run(fn,mk,post,prefix,elem,level,contracts),search=[searchpfx+nm]))
    for tr in('Add','Sub','Mul','Div'):
        for l in(ty,'&'+ty):
            for r in(ty,'&'+ty): arith(tr,l,r,False)
        for r in(ty,'&'+ty): arith(tr,ty,r,True)
    for l in(ty,'&'+ty):
        fn='<%s::%s as Neg>::neg'%(mod,l)
        def mk(ctx,fn=fn):
            a=mkv(ctx.dom,'a'); ctx.ab=(a,); return refs(crate.get(fn),[a],ctx)
        def post(ctx,ret):
            d=ctx.dom
            yield 'value',eq(d,ret,sp['neg'][1](d,ctx.ab[0]) if 'neg' in sp else d.neg(ctx.ab[0]))
            if ctx.cells[0]: yield 'operand unchanged',ctx.cells[0].v is ctx.ab[0]
        obs.append(Ob(prop,fn.replace(mod+'::',''),fn,'field',field_run(fn,mk,post,prefix,elem,level,contracts),search=[searchpfx+'neg']))
def div_spec(d,a,b,eq):
    z=d.norm(b.n) if isinstance(b,FE) else None
    if d.equal(b,d.const(0)): return d.const(0)
    return d.mul(a,d.inv(b))

def c01(crate):
    obs=[]
    p='C01'
    for n,k,sp,s in LIMB: obs.append(Ob(p,'Fp::'+n,FP+n,'limb',limb_run(FP+n,k,sp),search=s,weight=5))
    # multiplication by a small signed integer: sign fixed by case, magnitude symbolic
    for sg in(0,1):
        def extra(ctx,sg=sg):
            d=ctx.dom
            if sg: 
                k=d.atom(-(1<<31),-1,'k')
            else: k=d.atom(0,(1<<31)-1,'k')
            ctx.ins.append({(k.id,):1})
            from limb import SymInt
            return [SymInt({(k.id,):1},k.lo,k.hi)]
        obs.append(Ob(p,'Fp::set_mul_small k%s0'%('<' if sg else '>='),FP+'set_mul_small','limb',limb_run(FP+'set_mul_small',1,lambda d,a,k:(1,d.pmul(a,k)),extra=extra,divisor=P>>(P.bit_length()-32)),search=['fp.mul_small'],weight=5))
    # double products
    obs.append(Ob(p,'Fp::sum_of_products',FP+'sum_of_products','limb',limb_run(FP+'sum_of_products',4,lambda d,a,b,c,e:(R,padd(d.pmul(a,b),d.pmul(c,e))),ret=True),search=['fp.sop'],weight=9))
    obs.append(Ob(p,'Fp::difference_of_products',FP+'difference_of_products','limb',limb_run(FP+'difference_of_products',4,lambda d,a,b,c,e:(R,padd(d.pmul(a,b),d.pmul(c,e),-1)),ret=True),search=['fp.dop'],weight=9))
    # composites over the contracts
    def un(name,f,setter,op):
        fn=FP+name
        def mk(ctx):
            a=ctx.dom.var('a'); ctx.a=a; return refs(crate.get(fn),[a],ctx)
        def post(ctx,ret):
            yield 'value',ctx.dom.equal(ctx.dom.fe(ctx.cells[0].v if setter else ret),f(ctx.dom,ctx.a))
        def C():
            c=fp_contracts(FP,'Fp')
            for n in('set_mul3','set_mul4','set_mul8'): c.pop(FP+n)
            return c
        obs.append(Ob(p,'Fp::'+name,fn,'field',field_run(fn,mk,post,contracts=C()),search=['fp.'+op]))
    for k in(3,4,8):
        un('set_mul%d'%k,lambda d,a,k=k:d.scale(a,k),True,'mul%d'%k)
        un('mul%d'%k,lambda d,a,k=k:d.scale(a,k),False,'mul%d'%k)
    un('mul2',lambda d,a:d.scale(a,2),False,'mul2')
    un('half',lambda d,a:d.scale(a,(P+1)//2),False,'half')
    un('square',lambda d,a:d.mul(a,a),False,'square')
    fn=FP+'mul_small'
    def mk(ctx):
        a=ctx.dom.var('a'); k=ctx.dom.var('k'); ctx.a=(a,k); return [a,KInt(k)]
    obs.append(Ob(p,'Fp::mul_small',fn,'field',field_run(fn,mk,lambda ctx,r:[('value',ctx.dom.equal(ctx.dom.fe(r),ctx.dom.mul(*ctx.a)))]),search=['fp.mul_small']))
    operator_obs(obs,p,FPT,FP,'Fp','fp.',crate)
    utils64(obs,p)
    return obs

def c03(crate):
    """comparisons, selections, conversions from machine integers"""
    obs=[]; p='C03'
    def ob(name,mk,post,search,con=None): obs.append(Ob(p,'Fp::'+name.split(' ')[0]+name[len(name.split(' ')[0]):],FP+name.split(' ')[0],'z3-bv',bv_run(FP+name.split(' ')[0],mk,post,con),search=search))
    ones=z3.BitVecVal(ONES32,32); zero=z3.BitVecVal(0,32)
    ob('iszero',byval(mk_el(1)),lambda ctx,r:[('0xFFFFFFFF iff zero, else 0',bvret(ctx,r)==z3.If(allz(ctx.dom,ctx.w[0]),ones,zero))],['fp.iszero'])
    ob('equals',byval(mk_el(2)),lambda ctx,r:[('0xFFFFFFFF iff equal, else 0',bvret(ctx,r)==z3.If(alleq(ctx.dom,*ctx.w),ones,zero))],['fp.equals'])
    for ctl in(0,ONES32):
        lab=' ctl=%s'%('1' if ctl else '0')
        def mk3(ctx,ctl=ctl):
            a=mk_el(3)(ctx); return [a[2],a[0],a[1],ctl]
        ob('set_select'+lab,mk3,lambda ctx,r,ctl=ctl:[('value',alleq(ctx.dom,ctx.cells[2].v[0],ctx.w[1 if ctl else 0]))],['fp.select'])
        ob('select'+lab,mk_el(2,None,ctl),lambda ctx,r,ctl=ctl:[('value',alleq(ctx.dom,r[0],ctx.w[1 if ctl else 0]))],['fp.select'])
        ob('set_cond'+lab,mk_el(2,None,ctl),lambda ctx,r,ctl=ctl:[('value',alleq(ctx.dom,ctx.cells[0].v[0],ctx.w[1 if ctl else 0]))],['fp.set_cond'])
        ob('condswap'+lab,mk_el(2,None,ctl),lambda ctx,r,ctl=ctl:[('first',alleq(ctx.dom,ctx.cells[0].v[0],ctx.w[1 if ctl else 0])),('second',alleq(ctx.dom,ctx.cells[1].v[0],ctx.w[0 if ctl else 1]))],['fp.condswap'])
        def mkc(ctx,ctl=ctl):
            ctx.a=ctx.dom.var('a'); ctx.c=Cell(ctx.a); return [Ref(ctx.c),ctl]
        C=fp_contracts(FP,'Fp'); C.pop(FP+'set_condneg')
        obs.append(Ob(p,'Fp::set_condneg'+lab,FP+'set_condneg','field',field_run(FP+'set_condneg',mkc,lambda ctx,r,ctl=ctl:[('value',ctx.dom.equal(ctx.dom.fe(ctx.c.v),ctx.dom.neg(ctx.a) if ctl else ctx.a))],contracts=C),search=['fp.set_condneg']))
    # conversions: the word handed to Montgomery multiplication is |x| and the sign is applied
    def h_mul(ctx,a):
        d=ctx.dom
        x=ctx.load(a[0])[0]; y=ctx.load(a[1])[0]
        o=bv_words(d,'m%d_'%len(ctx.log)); ctx.log.append(('mul',x,y,o)); ctx.store(a[0],(o,)); return ()
    def h_condneg(ctx,a):
        d=ctx.dom
        x=ctx.load(a[0])[0]; o=bv_words(d,'n%d_'%len(ctx.log)); ctx.log.append(('condneg',x,a[1],o)); ctx.store(a[0],(o,)); return ()
    R2=[(R*R%P>>(64*i))&ONES64 for i in range(NL)]
    for n,w,s in(('from_i32',32,1),('from_i64',64,1),('from_u32',32,0),('from_u64',64,0)):
        def mk(ctx,w=w):
            ctx.log=[]; ctx.x=ctx.dom.word('x',w); return [ctx.x]
        def post(ctx,r,w=w,s=s):
            d=ctx.dom; x=ctx.x.t
            X=z3.SignExt(96-w,x) if s else z3.ZeroExt(96-w,x)
            # follow the log: value(out) as an integer expression (small)
            val={}
            def key(ws): return tuple(q.t.get_id() if isinstance(q,BV) else q for q in ws)
            for e in ctx.log:
                if e[0]=='mul':
                    c=e[2]
                    if not all(isinstance(q,int) for q in c):
                        yield 'multiplier is a constant',False; return
                    yield 'multiplier is R^2 mod p',list(c)==R2
                    hi=z3.And(*[T(d,q)==0 for q in e[1][1:]])
                    yield 'upper words are zero',hi
                    val[key(e[3])]=z3.ZeroExt(32,T(d,e[1][0]))
                else:
                    v=val.get(key(e[1]))
                    if v is None: yield 'negation of a converted value',False; return
                    c=d.lift(e[2],'u32')
                    yield 'control word is 0 or all-ones',z3.Or(c==0,c==ones)
                    val[key(e[3])]=z3.If(c==ones,-v,v)
            v=val.get(key(r[0]))
            if v is None:
                yield 'result comes from a conversion',False; return
            yield 'represents the argument',v==X
        obs.append(Ob(p,'Fp::'+n,FP+n,'z3-bv',bv_run(FP+n,mk,post,{FP+'set_mul':h_mul,FP+'set_condneg':h_condneg}),search=['fp.'+n]))
    return obs
ONES64=2**64-1

def c02(crate):
    obs=[]; p='C02'
    # encode: bytes of the words left by Montgomery reduction
    def h_mred(ctx,a):
        d=ctx.dom; x=ctx.load(a[0])[0]; o=bv_words(d,'r%d_'%len(ctx.log)); ctx.log.append((x,o)); ctx.store(a[0],(o,))
        v=z3.Concat(*[T(d,w) for w in reversed(o)])
        d.pc.append(z3.ULT(v,z3.BitVecVal(P,64*NL)))
        return ()
    def mk(ctx):
        ctx.log=[]; ctx.w=[bv_words(ctx.dom,'a')]; return [(ctx.w[0],)]
    def post(ctx,r):
        d=ctx.dom
        yield 'one reduction of the argument',len(ctx.log)==1 and all(x is y for x,y in zip(ctx.log[0][0],ctx.w[0]))
        yield 'length',len(r)==ENC
        o=ctx.log[0][1]
        bs=z3.Concat(*[d.lift(b,'u8') for b in reversed(r)])
        yield 'little-endian value of the bytes is the reduced integer',z3.ZeroExt(64*NL-8*ENC,bs)==z3.Concat(*[T(d,w) for w in reversed(o)])
    obs.append(Ob(p,'Fp::encode',FP+'encode','z3-bv',bv_run(FP+'encode',mk,post,{FP+'set_montyred':h_mred}),search=['fp.encode']))
    # the reduction used by encode is defined on any 21 words and canonical for canonical input
    obs.append(Ob(p,'Fp::set_montyred',FP+'set_montyred','limb',limb_run(FP+'set_montyred',1,lambda d,a:(R,a)),search=['fp.encode'],weight=5))
    obs.append(Ob(p,'Fp::set_mul',FP+'set_mul','limb',limb_run(FP+'set_mul',2,lambda d,a,b:(R,d.pmul(a,b))),search=['fp.mul'],weight=5))
    R2=[(R*R%P>>(64*i))&ONES64 for i in range(NL)]
    def h_mul(ctx,a):
        d=ctx.dom
        x=ctx.load(a[0])[0]; y=ctx.load(a[1])[0]
        o=bv_words(d,'m%d_'%len(ctx.log)); ctx.log.append((x,y,o)); ctx.store(a[0],(o,)); return ()
    def mkd(n):
        def mk(ctx):
            ctx.log=[]; ctx.b=tuple(ctx.dom.word('b%d'%i,8) for i in range(n)); return [Ref(Cell(ctx.b),(),(0,n))]
        return mk
    def postd(ctx,r):
        d=ctx.dom; el,fl=r
        v=z3.ZeroExt(64*NL-8*ENC,z3.Concat(*[b.t for b in reversed(ctx.b)]))
        if not ctx.log and all(isinstance(w,int) for w in el[0]):
            # early return
            yield 'rejected only when the integer is not below p',z3.UGE(v,z3.BitVecVal(P,64*NL))
            yield 'rejected: zero and flag 0',z3.And(d.lift(fl,'u32')==0,z3.BoolVal(all(w==0 for w in el[0])))
            return
        yield 'one conversion',len(ctx.log)==1
        x,y,o=ctx.log[0]
        yield 'multiplier is R^2 mod p',list(y)==R2
        v=z3.ZeroExt(64*NL-8*ENC,z3.Concat(*[b.t for b in reversed(ctx.b)]))
        ok=z3.ULT(v,z3.BitVecVal(P,64*NL))
        yield 'flag: accepted iff the integer is below p',d.lift(fl,'u32')==z3.If(ok,z3.BitVecVal(ONES32,32),z3.BitVecVal(0,32))
        yield 'element: the integer, zero when rejected',z3.Concat(*[T(d,w) for w in reversed(x)])==z3.If(ok,v,z3.BitVecVal(0,64*NL))
        yield 'returned element is the converted one',all(a is b for a,b in zip(el[0],o))
    obs.append(Ob(p,'Fp::decode, %d bytes'%ENC,FP+'decode','z3-bv',bv_run(FP+'decode',mkd(ENC),postd,{FP+'set_mul':h_mul}),search=['fp.decode'],timeout=200))
    def run_len(env,res):
        f=env.fn(FP+'decode'); out=[]
        for n in list(range(0,420)):
            if n==ENC: continue
            for o in explore(env.crate,lambda:BVDom({FP+'set_mul':h_mul}),f,mkd(n)):
                res.paths+=1; note(res,o.ctx)
                out.append(('length %d rejected'%n,o.kind=='return' and o.ret==((((0,)*NL),),0),''))
        return out
    obs.append(Ob(p,'Fp::decode, other lengths',FP+'decode','exec',run_len,search=['fp.decode'],bound='slice lengths 0..419 (contents unbounded)'))
    # decode_reduce
    def h_nocheck(ctx,a):
        d=ctx.dom
        bs=ctx.load(a[1]); n={}
        if len(bs)<ENC: raise Panic('slice too short for set_decode_nocheck')
        for i in range(ENC):
            b=bs[i]
            if isinstance(b,int): n=d.R.add(n,d.R.const(b<<(8*i)))
            elif isinstance(b,SB): n=d.R.add(n,d.R.scale(d.R.v(b.v),1<<(8*i)))
            else: raise Unsupported('byte')
        top=[i for i in range(ENC) if not(isinstance(bs[i],int) and bs[i]==0)]
        if top and (1<<(8*(max(top)+1)))>P:
            ctx.canon_bad=True
        ctx.store(a[0],d.scale(FE(n),d.Rmont)); return ()
    def run_dr(env,res,lens):
        f=env.fn(FP+'decode_reduce'); out=[]
        C=fp_contracts(FP,'Fp'); C[FP+'set_decode_nocheck']=h_nocheck
        for n in lens:
            def mk(ctx):
                d=ctx.dom; ctx.canon_bad=False
                ctx.vs=[d.R.var('b%d'%i) for i in range(n)]
                return [Ref(Cell(tuple(SB(v) for v in ctx.vs)),(),(0,n))]
            for o in explore(env.crate,lambda:Field(P,'fp',C),f,mk):
                res.paths+=1; note(res,o.ctx)
                if o.kind!='return': out.append(('length %d: no panic'%n,False,o.msg)); continue
                d=o.ctx.dom; want={}
                want={((v,1),):pow(256,i,P) for i,v in enumerate(o.ctx.vs)}
                out.append(('length %d: integer mod p'%n,d.equal(d.fe(o.ret),FE(want)),''))
                out.append(('length %d: chunks are below p'%n,not o.ctx.canon_bad,''))
        return out
    for lo,hi in((0,170),(170,330),(330,490),(490,660)):
        obs.append(Ob(p,'Fp::decode_reduce, lengths %d..%d'%(lo,hi-1),FP+'decode_reduce','field',lambda env,res,lo=lo,hi=hi:run_dr(env,res,range(lo,hi)),search=['fp.decode_reduce'],bound='slice lengths %d..%d (contents unbounded)'%(lo,hi-1),weight=6))
    # set_decode_nocheck: words of the bytes
    def mkn(ctx):
        ctx.b=tuple(ctx.dom.word('b%d'%i,8) for i in range(ENC)); ctx.c=Cell((bv_words(ctx.dom,'z'),)); return [Ref(ctx.c),Ref(Cell(ctx.b),(),(0,ENC))]
    obs.append(Ob(p,'Fp::set_decode_nocheck',FP+'set_decode_nocheck','z3-bv',bv_run(FP+'set_decode_nocheck',mkn,lambda ctx,r:[('little-endian words',z3.Concat(*[T(ctx.dom,w) for w in reversed(ctx.c.v[0])])==z3.ZeroExt(64*NL-8*ENC,z3.Concat(*[b.t for b in reversed(ctx.b)])))]),search=['fp.decode','fp.decode_reduce']))
    return obs
class SB(Sym):
    """symbolic byte = ring variable"""
    __slots__=('v',)
    def __init__(self,v): self.v=v
