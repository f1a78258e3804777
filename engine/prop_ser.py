"""Serialisation of secret keys and ciphertexts over the contracts of the field encoding (C02) and of the affine
conversions (C08).  Byte strings have concrete length; each byte is a named byte of an unknown field element or integer."""
from prop_grp import *
FE='festa::'
class FT(Sym):
    """an unknown field element"""
    __slots__=('n',)
    def __init__(self,n): self.n=n
    def same(self,o): return isinstance(o,FT) and self.n==o.n
    def __repr__(self): return '<%s>'%self.n
class BT(Sym):
    """byte i of the canonical encoding of an unknown"""
    __slots__=('n','i')
    def __init__(self,n,i): self.n=n; self.i=i
    def key(self): return self.n,self.i
    def __repr__(self): return '%s[%d]'%(self.n,self.i)
class PTk(Sym):
    """an unknown finite point, in any representation: x/y coordinates name.x, name.y; or the point with the given ones"""
    __slots__=('x','y')
    def __init__(self,x,y): self.x=x; self.y=y
    def key(self): return ('P',self.x,self.y)
    def __repr__(self): return '(%s,%s)'%(self.x,self.y)
class CTk(Sym):
    """the curve with an unknown constant"""
    __slots__=('a',)
    def __init__(self,a): self.a=a
    def __repr__(self): return 'Curve(%s)'%self.a
class NT(Sym):
    """an unknown integer whose shortest little-endian representation has len bytes"""
    __slots__=('n','len')
    def __init__(self,n,l): self.n=n; self.len=l
    def __repr__(self): return '<%s:%d bytes>'%(self.n,self.len)
class SerDom(Domain):
    def big_tobytes(self,ctx,x,le):
        b=tuple(BT(x.n,i) for i in range(x.len)); return VecVal(b if le else b[::-1])
    def big_frombytes(self,ctx,v):
        v=list(v)
        while v and v[-1] is not None and isinstance(v[-1],int) and v[-1]==0: v.pop()
        if not v: return 0
        if all(isinstance(b,BT) for b in v) and [b.key() for b in v]==[(v[0].n,i) for i in range(len(v))] and len(v)==ctx.lens.get(v[0].n): return NT(v[0].n,len(v))
        raise Deviates('integer read from the wrong bytes')
class Deviates(Exception): pass
def ser_contracts():
    C={}
    def need(v,t):
        if not isinstance(v,t): raise Unsupported('value of another kind')
        return v
    C[CV+'get_constant']=lambda ctx,a: FT(need(ld(ctx,a[0]),CTk).a)
    C[CV+'new']=lambda ctx,a: CTk(need(ld(ctx,a[0]),FT).n)
    C[PT+'to_xy']=lambda ctx,a: (lambda p:(FT(p.x),FT(p.y)))(need(ld(ctx,a[0]),PTk))
    def xyv(ctx,a):
        p=need(ld(ctx,a[0]),PTk); return Some((FT(p.x),FT(p.y)))
    C[PT+'to_xy_vartime']=xyv
    C[PT+'new_xy']=lambda ctx,a: PTk(need(ld(ctx,a[0]),FT).n,need(ld(ctx,a[1]),FT).n)
    C[PT+'isinfinity']=lambda ctx,a: 0      # precondition: finite points
    C[FP2+'encode']=lambda ctx,a: tuple(BT(need(ld(ctx,a[0]),FT).n,i) for i in range(2*ENC))
    def dec(ctx,a):
        r=a[0]; b=list(ctx.load(r) if isinstance(r,Ref) and r.meta else ctx.seq(ld(ctx,r)))
        if len(b)==2*ENC and all(isinstance(x,BT) for x in b) and [x.key() for x in b]==[(b[0].n,i) for i in range(2*ENC)]: return (FT(b[0].n),0xFFFFFFFF)
        raise Deviates('field element read from the wrong bytes')
    C[FP2+'decode']=dec
    return C
SK=['EA_prime','im_basis_bd1_E0','im_basis_d2_EA','diagmatA']; TO=['E1','R1','S1','E2','R2','S2']
def order(env,ty,default):
    fo=env.crate.field_order(FE+ty) or default
    if sorted(fo)!=sorted(default): raise Unsupported('fields of '+ty)
    return fo
def pt(n): return PTk(n+'.x',n+'.y')
def fb(n): return [BT(n,i) for i in range(2*ENC)]
def pb(n): return fb(n+'.x')+fb(n+'.y')
def num(n,l): return NT(n,l) if l else 0
def nb(n,l): return [BT(n,i) for i in range(l)]+[0]*(82-l)
def sk_val(l1,l2): return {'EA_prime':CTk('A'),'im_basis_bd1_E0':(pt('P0'),pt('Q0')),'im_basis_d2_EA':(pt('P1'),pt('Q1')),'diagmatA':(num('a11',l1),num('a22',l2))}
def sk_bytes(l1,l2): return fb('A')+pb('P0')+pb('Q0')+pb('P1')+pb('Q1')+nb('a11',l1)+nb('a22',l2)
def to_val(): return {'E1':CTk('A1'),'R1':pt('R1'),'S1':pt('S1'),'E2':CTk('A2'),'R2':pt('R2'),'S2':pt('S2')}
def to_bytes(): return fb('A1')+pb('R1')+pb('S1')+fb('A2')+pb('R2')+pb('S2')
def canon(v):
    if isinstance(v,(PTk,BT)): return ('t',)+v.key()
    if isinstance(v,CTk): return ('c',v.a)
    if isinstance(v,NT): return ('n',v.n,v.len)
    if isinstance(v,tuple): return tuple(canon(x) for x in v)
    return v
def c13(crate):
    p='C13'; obs=[]
    def enc(env,res,ty,flds,val,byts,lens):
        fn=env.fn(FE+ty+'::encode'); out=[]; fo=order(env,ty,flds)
        def args(ctx): ctx.lens=lens; return [Ref(Cell(tuple(val[f] for f in fo)))]
        for o in explore(env.crate,lambda:SerDom(ser_contracts()),fn,args):
            res.paths+=1; note(res,o.ctx)
            if o.kind!='return': out.append(('no panic',False,o.msg)); continue
            r=list(o.ret.items)
            out.append(('length %d'%len(byts),len(r)==len(byts),'%d'%len(r)))
            bad=[i for i,(x,y) in enumerate(zip(r,byts)) if canon(x)!=canon(y)]
            out.append(('bytes in the fixed order',not bad,'byte %s is %r'%(bad[:1],[r[i] for i in bad[:1]])))
        return out
    def dec(env,res,ty,flds,val,byts,lens):
        fn=env.fn(FE+ty+'::decode'); out=[]; fo=order(env,ty,flds)
        def args(ctx): ctx.lens=lens; return [Ref(Cell(VecVal(byts)))]
        try:
            for o in explore(env.crate,lambda:SerDom(ser_contracts()),fn,args):
                res.paths+=1; note(res,o.ctx)
                if o.kind!='return': out.append(('no panic',False,o.msg)); continue
                for f,v in zip(fo,o.ret): out.append(('field %s'%f,canon(v)==canon(val[f]),repr(v)))
                out.append(('fields',len(o.ret)==len(fo),''))
        except Deviates as e: out.append((str(e),False,''))
        return out
    def many(f,ty,pairs):
        def run(env,res):
            out=[]
            for l1,l2 in pairs:
                out+=[(('(%d,%d bytes) '%(l1,l2))+c[0],)+tuple(c[1:]) for c in f(env,res,ty,SK,sk_val(l1,l2),sk_bytes(l1,l2),{'a11':l1,'a22':l2})]
            return out
        return run
    pairs=[(a,b) for a in range(83) for b in range(83)]
    for d,f in(('encode',enc),('decode',dec)):
        obs.append(Ob(p,'TrapdoorOutput::'+d,FE+'TrapdoorOutput::'+d,'byte tokens',lambda env,res,f=f:f(env,res,'TrapdoorOutput',TO,to_val(),to_bytes(),{}),search=['se.out']))
        for k in range(8): obs.append(Ob(p,'SecretKey::%s, scalar lengths %d mod 8'%(d,k),FE+'SecretKey::'+d,'byte tokens',many(f,'SecretKey',pairs[k::8]),search=['se.key'],weight=5))
    def carry(ty,flds,mk,get):
        def run(env,res):
            out=[]; fo=order(env,ty,flds)
            r=None
            for o in explore(env.crate,lambda:SerDom(ser_contracts()),env.fn(FE+ty+'::new'),lambda ctx:[Ref(Cell(v)) for v in mk]):
                res.paths+=1; note(res,o.ctx)
                if o.kind!='return': out.append(('no panic',False,o.msg)); continue
                r=o.ret
            for o in explore(env.crate,lambda:SerDom(ser_contracts()),env.fn(FE+ty+'::extract'),lambda ctx:[Ref(Cell(r))]):
                res.paths+=1; note(res,o.ctx)
                if o.kind!='return': out.append(('no panic',False,o.msg)); continue
                out.append(('extract(new(v)) = v',canon(o.ret)==canon(get),repr(o.ret)))
            return out
        return run
    v=sk_val(3,5); v=tuple(v[f] for f in SK); w=tuple(to_val()[f] for f in TO); u=(NT('s1',3),NT('s2',4),(NT('b1',5),NT('b2',6))); k=(CTk('A'),pt('R'),pt('S'))
    for ty,fl,mk,sr in(('SecretKey',SK,v,'se.key'),('TrapdoorOutput',TO,w,'se.out'),('TrapdoorInput',['s1','s2','diagmatB'],u,'se.inp'),('PublicKey',['EA','RA','SA'],k,'se.pk')):
        obs.append(Ob(p,ty+'::new, extract',FE+ty+'::new','byte tokens',carry(ty,fl,mk,mk),search=[sr]))
    def eq(env,res):
        fn=env.fn('<festa::TrapdoorInput as PartialEq>::eq'); out=[]; fo=order(env,'TrapdoorInput',['s1','s2','diagmatB'])
        def args(ctx):
            d=ctx.dom; r=[]
            for s in 'xy':
                for q in('s1','s2','b1','b2'): d.var(s+q,lo=0)
                v={'s1':IV({(s+'s1',):1}),'s2':IV({(s+'s2',):1}),'diagmatB':(IV({(s+'b1',):1}),IV({(s+'b2',):1}))}
                r.append(Ref(Cell(tuple(v[f] for f in fo))))
            return r
        same=z3.And([z3.Int('x'+q)==z3.Int('y'+q) for q in('s1','s2','b1','b2')])
        for o in explore(env.crate,lambda:IntDom({}),fn,args):
            res.paths+=1; note(res,o.ctx); d=o.ctx.dom
            if o.kind!='return': out.append(('no panic',False,o.msg)); continue
            t=o.ret.t if isinstance(o.ret,IB) else z3.BoolVal(bool(o.ret))
            out.append(('equal exactly when all four scalars are equal',d.proves(t==same),''))
        return out
    obs.append(Ob(p,'TrapdoorInput equality','<festa::TrapdoorInput as PartialEq>::eq','int',eq,search=['se.inp']))
    return obs
