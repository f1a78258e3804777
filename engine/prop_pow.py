"""Exponentiation in F_p and F_p^2: the result is x^e for every x and every exponent."""
from spec import *
from obl import *
from powdom import *
from prop_fp import refs,field_run
from field import *
from live import live_in,live_out
from bv import BV,BB

def bits_poly(names,shift=0): return {(n,):1<<(i-shift) for i,n in enumerate(names) if i>=shift}
ONE1=tuple((R%P>>(64*i))&(2**64-1) for i in range(NL))
def ones(kind): return (ONE1,) if kind=='Fp' else ((ONE1,),((0,)*NL,))

def loop_heads(f):
    if f.blocks is None: parse_body(f)
    heads=set()
    # blocks that are reached again from a block they reach
    succ={}
    for b,sts in f.blocks.items():
        s=[]
        for st in sts:
            if st[0]=='goto': s.append(st[1])
            elif st[0]=='switch': s+=[c[1] for c in st[2]]+([st[3]] if st[3] is not None else [])
            elif st[0] in('call','assert') and st[4] is not None: s.append(st[4])
        succ[b]=s
    seen={}
    stack=[(0,iter(succ.get(0,())))]; seen[0]=1
    while stack:
        b,it=stack[-1]
        for n in it:
            if n not in seen: seen[n]=1; stack.append((n,iter(succ.get(n,())))); break
            elif seen[n]==1: heads.add(n)
        else: seen[b]=2; stack.pop()
    return heads

HEADS={}
KEEP=[]
def fpr(v,num,c):
    """canonical form of a value for state comparison (cells are numbered in order of appearance)"""
    if isinstance(v,PE): return ('pe',tuple(sorted(v.e.items())))
    if isinstance(v,Ref):
        if v.cell is c: return ('ref','acc',v.projs,v.meta)
        if id(v.cell) in num: return ('ref',num[id(v.cell)],v.projs,v.meta)
        num[id(v.cell)]=len(num)
        return ('ref',len(num)-1,fpr(v.cell.v,num,c),v.projs,v.meta)
    if isinstance(v,tuple): return tuple(fpr(x,num,c) for x in v)
    if isinstance(v,VecVal): return ('vec',)+tuple(fpr(x,num,c) for x in v.items)
    if isinstance(v,Enum): return ('enum',v.idx,v.name)+tuple(fpr(x,num,c) for x in v.fields)
    if isinstance(v,(BV,BB)):
        t=simp(v.t); KEEP.append(t); return ('t',t.get_id())     # terms are hash-consed: equal ids, equal terms
    if isinstance(v,(int,bool,str)) or v is UNINIT: return repr(v)
    if isinstance(v,BigBits): return ('big',)+tuple(b if isinstance(b,int) else fpr(BB(b),num,c) for b in v.bits)
    return object()      # never equal

def pow_run(crate,prefix,kind,name,cases,selfref,cut=True):
    """cases: list of (label, make(dom) -> (args after self, expected exponent polynomial, precondition))"""
    fn=prefix+name
    def run(env,res):
        f=env.fn(fn); out=[]
        C=pow_contracts(prefix)
        heads=loop_heads(f) if cut else ()
        for lab,mk in cases:
            done=set(); merged=[0]
            def make(usecut=1 if cut else 0):
                d=PowDom(dict(C),ones(kind))
                if usecut:
                    # Paths that differ only in exponent bits already consumed are merged at loop heads: when an
                    # accumulator holds exactly the part of the exponent read so far, it is replaced by that
                    # polynomial and the assignment of those bits is forgotten (a superset of the states).
                    def hook(ctx,fr,bb,frame):
                        if not d.asg or not d.forms: return
                        if fr.name not in HEADS: HEADS[fr.name]=loop_heads(fr)
                        if bb not in HEADS[fr.name]: return
                        best=None; cells=[]
                        def wt(n): return (1 if d.asg[n] else 0) if n in d.asg else (hash(n)&0xffffffffff)
                        def val(e):      # value at fixed pseudo-random arguments (a filter only)
                            t=0
                            for m,cf in e.items():
                                for n in m: cf*=wt(n)
                                t+=cf
                            return t
                        if d.fvals is None: d.fvals=[sum(cf*(hash(m[0])&0xffffffffff if m else 1) for m,cf in form.items()) for s,form in d.forms]
                        fv=None
                        lvs=live_in(ctx.stack[-1][3])[bb]
                        for k,c in sorted(frame.items(),reverse=usecut==2):
                            v=c.v
                            if k not in lvs: continue
                            if isinstance(v,PE): cells.append((k,c,()))
                            elif isinstance(v,Ref) and not v.projs and isinstance(v.cell.v,PE): cells.append((k,v.cell,()))
                        for k,c,_ in cells:
                            if fv is None:
                                dl=[((n,),wt(n)-(hash(n)&0xffffffffff)) for n in d.asg]
                                fv=[(s,form,v0+sum(form.get(m,0)*x for m,x in dl)) for (s,form),v0 in zip(d.forms,d.fvals)]
                            vc=val(c.v.e)
                            for s,form,v in fv:
                                if v!=vc: continue
                                cov=sum(1 for n in d.asg if (n,) in form)
                                if not cov or (best is not None and (cov,-s)<=best[0]): continue
                                if d.esub(form)==d.esub(c.v.e): best=((cov,-s),s,form,c)
                        if best is None: return
                        _,s,form,c=best
                        if (fr.name,bb,s) in d.cutsat: return
                        kept={n:x for n,x in d.asg.items() if (n,) not in form}
                        rest=[]; num={}
                        for nm,b,fra,ff in ctx.stack:
                            rest.append((nm,b)); lv=live_in(ff)[b] if fra is frame else live_out(ff,b)
                            for k,x in sorted(fra.items()):
                                if k not in lv: continue
                                num.setdefault(id(x),len(num))
                                rest.append((k,'acc' if x is c else fpr(x.v,num,c)))
                        key=(fr.name,bb,s,tuple(sorted(kept.items())),tuple(rest))
                        if key in done: raise Infeasible()
                        done.add(key); d.cutsat.add((fr.name,bb,s)); merged[0]+=1
                        d.asg=kept
                        c.v=PE(form)
                    d.block_hook=hook; d.cutsat=set(); d.fvals=None
                return d
            def args(ctx):
                d=ctx.dom
                a,e,forms=mk(ctx); ctx.want=e; d.forms=forms
                x=PE({():1}); ctx.c=Cell(x)
                return [Ref(ctx.c) if selfref else x]+a
            def go(mkdom):
                vs=[]
                for o in explore(env.crate,mkdom,f,args,max_paths=6000):
                    res.paths+=1; note(res,o.ctx)
                    if o.kind!='return': vs.append((lab+': no panic',False,o.msg)); continue
                    d=o.ctx.dom
                    r=o.ctx.c.v if selfref else o.ret
                    if r==d.one: E={}
                    elif isinstance(r,PE): E=r.e
                    else: raise Unsupported('result')
                    ok=d.esub(E)==d.esub(o.ctx.want)
                    vs.append((lab+': exponent',ok,'' if ok else 'exponent %s'%str(d.esub(padd(E,o.ctx.want,-1)))[:120]))
                return vs
            vs=go(make)
            if merged[0] and any(v[1] is False for v in vs):
                # the merged states may be too coarse: only a refutation without merging counts
                done=set(); vs=go(lambda: make(2))
            if merged[0] and any(v[1] is False for v in vs):
                try: vs=go(lambda: make(0))
                except Unsupported as e: vs=[(v[0],None if v[1] is False else v[1],'undecided after merging: '+v[2]) for v in vs]
            out+=vs
        return out
    return run
def bytes_arg(ctx,n):
    d=ctx.dom
    bs=[]; names=[]
    for i in range(n):
        b=[d.bit('e%d'%(8*i+j)) for j in range(8)]; names+=['e%d'%(8*i+j) for j in range(8)]
        bs.append(d.wordof(b,8))
    return Ref(Cell(tuple(bs)),(),(0,n)),names
def forms(names,top=None):
    """the exponent polynomials of partial computations: leading bits (down to s), trailing bits (below s)"""
    L=len(names)+(1 if top else 0); o=[]
    for s in range(L):
        r=bits_poly(names,s)
        if top and L-1>=s: r=padd(r,pconst(1<<(L-1-s)))
        o.append((s,r))
    for s in range(1,L):
        o.append((2*L-s,bits_poly(names[:s])))
    return o
def case_pow(n,bl):
    def mk(ctx):
        r,names=bytes_arg(ctx,n); return [r,bl],bits_poly(names[:bl]),forms(names[:bl])
    return ('%d-byte exponent, %d bits'%(n,bl),mk)
def case_ext(n,off,bl):
    def mk(ctx):
        r,names=bytes_arg(ctx,n); return [r,off,bl],bits_poly(names[off:off+bl]),forms(names[off:off+bl])
    return ('%d-byte exponent, offset %d, %d bits'%(n,off,bl),mk)
def case_u64(bl):
    def mk(ctx):
        d=ctx.dom; b=[d.bit('e%d'%i) for i in range(bl)]
        return [d.wordof(b,64),bl],bits_poly(['e%d'%i for i in range(bl)]),forms(['e%d'%i for i in range(bl)])
    return ('%d-bit exponent'%bl,mk)
def case_u64_wide(bl):
    # bits at and above ebitlen are ignored
    def mk(ctx):
        d=ctx.dom; b=[d.bit('e%d'%i) for i in range(64)]
        return [d.wordof(b,64),bl],bits_poly(['e%d'%i for i in range(bl)]),forms(['e%d'%i for i in range(bl)])
    return ('64-bit word, %d bits used'%bl,mk)
def case_var(L,w=64):
    # exponents of bit length exactly L
    def mk(ctx):
        d=ctx.dom; names=['e%d'%i for i in range(L-1)]
        b=[d.bit(n) for n in names]+([1] if L else [])
        e=bits_poly(names)
        if L: e=padd(e,pconst(1<<(L-1)))
        return [d.wordof(b,w)],e,forms(names,L>0)
    return ('exponents of length %d'%L,mk)
class BigBits(Sym):
    """num_bigint value given by unknown bits"""
    __slots__=('bits','names')
    def __init__(self,bits,names): self.bits=bits; self.names=names
def case_big(L):
    def mk(ctx):
        d=ctx.dom; names=['e%d'%i for i in range(max(L-1,0))]
        b=[d.bit(n) for n in names]+([1] if L else [])
        e=bits_poly(names)
        if L: e=padd(e,pconst(1<<(L-1)))
        return [Ref(Cell(BigBits(b,names)))],e,forms(names,L>0)
    return ('exponents of length %d'%L,mk)

def c07(crate):
    obs=[]; p='C07'
    from conc import OPS
    LENS=[0,1,2,7,8,9,15,16,17,31,32,33,63,64,65,127,128,129,255,256,257]
    for prefix,kind,sp in((FP,'Fp','fp.'),(FP2,'Fp2','fp2.')):
        def add(name,cases,selfref,search,bound,cut=True,w=3):
            obs.append(Ob(p,kind+'::'+name,prefix+name,'exponent',pow_run(crate,prefix,kind,name,cases,selfref,cut),search=[sp+s for s in search],bound=bound,weight=w))
        def byt(bl): return max(1,(bl+7)//8)
        add('set_pow',[case_pow(byt(b),b) for b in LENS],True,['pow'],'bit lengths %s (exponent bits and base unbounded)'%LENS)
        add('pow',[case_pow(byt(b),b) for b in range(0,34)],False,['pow'],'bit lengths 0..33')
        ext=[(9,o,b) for o in range(0,10) for b in (0,1,2,7,8,9,20,62-0) if o+b<=72]
        add('set_pow_ext',[case_ext(*x) for x in ext],True,['pow_ext'],'offsets 0..9, several lengths')
        add('pow_ext',[case_ext(*x) for x in ext],False,['pow_ext'],'offsets 0..9, several lengths')
        add('pow_big',[case_big(L) for L in list(range(0,20))+[64,65,633,634,1292,1293,1294]],False,['pow_big'],'bit lengths 0..19 and selected up to 1294')
    add2=lambda name,cases,selfref,search,bound,cut=True,w=3: obs.append(Ob(p,'Fp2::'+name,FP2+name,'exponent',pow_run(crate,FP2,'Fp2',name,cases,selfref,cut),search=['fp2.'+s for s in search],bound=bound,weight=w))
    add2('pow_small',[case_var(L,32) for L in range(0,33)],False,['pow_small'],None)
    add2('set_pow_u64',[case_u64(b) for b in range(0,65)]+[case_u64_wide(b) for b in range(1,65)],True,['pow_u64'],None)
    add2('pow_u64',[case_u64(b) for b in range(0,65)],False,['pow_u64'],None)
    add2('set_pow_u64_vartime',[case_var(L) for L in range(0,65)],True,['pow_u64_vartime'],None,True,9)
    add2('pow_u64_vartime',[case_var(L) for L in range(0,10)],False,['pow_u64_vartime'],'exponents below 1024')
    # fixed powers: the square and fourth roots in F_p
    for nm,k,fields in(('set_sqrt',2,True),('sqrt',2,False),('set_fourth_root',4,True),('fourth_root',4,False)):
        pass
    return obs
