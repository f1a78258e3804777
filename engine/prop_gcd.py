"""Division, inversion and the Legendre symbol of the base field: the binary GCD of fp_gen.rs."""
from prop_fp import *
import random
M64=(1<<64)-1

# ------------------------------------------------------------------ linear combinations (limb back end)
def signed_word(ctx,name,lo,hi):
    """a signed integer in [lo,hi] of one sign, as a two's complement word"""
    d=ctx.dom; k=d.atom(lo,hi,name); ctx.ins.append({(k.id,):1})
    p={(k.id,):1}
    if lo<0: p=padd(p,pconst(1<<64))
    return SymInt(p,*d.interval(p))
def fp_value(dom,name,V,hi):
    """limbs of a canonical element whose value is the polynomial V"""
    n=dom.nl; rest={}; limbs=[None]*n
    for i in range(1,n):
        a=dom.atom(0,min(M64,hi>>(64*i)),'%s_%d'%(name,i)); limbs[i]=SymInt({(a.id,):1},a.lo,a.hi); rest[(a.id,)]=-(1<<(64*i))
    a0=dom.atom(0,M64,name+'_0',padd(rest,V)); limbs[0]=SymInt({(a0.id,):1},0,M64)
    return tuple(limbs)
def vkey(x): return tuple(tuple(sorted(w.poly.items())) if isinstance(w,SymInt) else w for w in x)
def h_limb_neg(ctx,a):
    """contract of Fp::set_neg (C01)"""
    d=ctx.dom; x=ctx.load(a[0])[0]
    for l,v in ctx.known:
        if vkey(l)==vkey(x):
            vid=next(iter(v))[0]
            if ctx.decide(2,'negation of zero')==0:
                at=d.atoms[vid]
                if at.hi==0: raise Infeasible()
                at.lo=max(at.lo,1)
                k=('neg',vid)
                if k not in ctx.memo: ctx.memo[k]=fp_value(d,'n%d'%vid,padd(pconst(P),v,-1),P)
                ctx.store(a[0],(ctx.memo[k],)); return ()
            if d.atoms[vid].lo>0: raise Infeasible()
            d.fix(vid,0)
            for w in l:
                m,=w.poly; d.fix(m[0],0)
            ctx.store(a[0],((0,)*NL,)); return ()
    return NotImplemented
def montylin_run(sf,sg):
    def run(env,res):
        f=env.fn(FP+'set_montylin'); out=[]
        def args(ctx):
            ctx.ins=[]; ctx.memo={}; d=ctx.dom
            l,v=fp_input(d,'u'); l2,v2=fp_input(d,'v'); ctx.known=[(l,v),(l2,v2)]; ctx.vv=(v,v2)
            ctx.out=Cell((tuple([0]*NL),)); ctx.cu=Cell((l,)); ctx.cv=Cell((l2,))
            B=1<<62
            fw=signed_word(ctx,'f',*((0,B) if not sf else (-B,-1))); gw=signed_word(ctx,'g',*((0,B) if not sg else (-B,-1)))
            return [Ref(ctx.out),Ref(ctx.cu),Ref(ctx.cv),fw,gw]
        for o in explore(env.crate,lambda:Limb({FP+'set_neg':h_limb_neg},P,NL),f,args):
            res.paths+=1; note(res,o.ctx)
            if o.kind!='return': out.append(('no panic',False,o.msg)); continue
            d=o.ctx.dom; L=o.ctx.out.v[0]; (u,v),(F,G)=o.ctx.vv,o.ctx.ins
            ok,msg,nc=check_mod(d,limbs_value(d,L),1<<64,padd(d.pmul(u,F),d.pmul(v,G)),P)
            out.append(('2^64 r = u f + v g mod p, r canonical',ok if ok else (None if ok is None else False),msg or ''))
            out.append(('limbs are 64-bit words',limb_ranges_ok(d,L),''))
            out.append(('arguments unchanged',o.ctx.cu.v[0] is o.ctx.known[0][0] and o.ctx.cv.v[0] is o.ctx.known[1][0],''))
        return out
    return run
def h_limb_sgnw(ctx,a):
    """contract of utils64::sgnw (C01): all-ones iff the top bit is set; the two cases are explored separately"""
    d=ctx.dom; x=a[0]
    if isinstance(x,int): return M64 if x>>63 else 0
    x=d.S(d.subst_fixed(x.poly))
    lo,hi=d.rng(x)
    if hi<1<<63: return 0
    if lo>=1<<63: return M64
    ctx.sg.append(x)
    for _ in range(8):
        # the word in terms of what was subtracted, and the borrows that were taken
        q=x.poly
        for _ in range(6):
            t=[m[0] for m in q if len(m)==1 and any(b.partner==m[0] and b.lo>=0 and b.hi<=1 for b in d.atoms)]
            if not t: break
            q=padd({m:v for m,v in q.items() if m!=(t[0],)},pscale(d.atoms[t[0]].defn,q[(t[0],)]))
        q=d.subst_fixed(q)
        lo,hi=d.interval(q); lo=max(lo,0); hi=min(hi,M64)
        if lo>hi: raise Infeasible()
        if hi<1<<63: ctx.neg=0; return 0
        if lo>=1<<63: ctx.neg=1; return M64
        bs=[m[0] for m in q if len(m)==1 and d.atoms[m[0]].partner is not None and d.atoms[m[0]].lo==0 and d.atoms[m[0]].hi==1]
        if not bs: break
        b=bs[0]; d.fix(b,ctx.decide(2,'sign'))
        if not propagate(d,[]): raise Infeasible()
    raise Unsupported('sign of an unknown word')
def lindiv_run(sf,sg):
    K=31
    def run(env,res):
        f=env.fn(FP+'set_lindiv31abs'); out=[]
        def args(ctx):
            ctx.ins=[]; ctx.sg=[]; ctx.neg=None; d=ctx.dom
            A=d.atom(0,P,'a'); B=d.atom(0,P,'b'); ctx.vv=({(A.id,):1},{(B.id,):1}); ctx.el=[fp_value(d,n,v,P) for n,v in zip('ab',ctx.vv)]
            ctx.cells=[Cell((e,)) for e in ctx.el]
            ctx.out=Cell((tuple([0]*NL),))
            # |f|+|g| <= 2^31 : g is bounded by itself here, the sum is used for the size of the result
            w=[signed_word(ctx,n,*((0,1<<K) if not s else (-(1<<K),-1))) for n,s in(('f',sf),('g',sg))]
            return [Ref(ctx.out)]+[Ref(c) for c in ctx.cells]+w
        for o in explore(env.crate,lambda:Limb({'finitefield::utils64::sgnw':h_limb_sgnw},P,NL),f,args):
            res.paths+=1; note(res,o.ctx)
            if o.kind!='return': out.append(('no panic',False,o.msg)); continue
            c=o.ctx; d=c.dom; L=c.out.v[0]; (a,b),(F,G)=c.vv,c.ins
            T_=padd(d.pmul(a,F),d.pmul(b,G))
            ret=o.ret
            if ret not in(0,M64): out.append(('returns 0 or all-ones',None if not isinstance(ret,int) else False,repr(ret))); continue
            s=-1 if ret else 1
            # sign of a f + b g: its top word
            if c.sg:
                U=d.subst_fixed(padd(c.sg[-1].poly,pconst(-(1<<64) if c.neg else 0)))
                lo,hi=d.bound(padd(T_,pscale(U,1<<(64*NL)),-1))
                ul,uh=d.interval(U)
                okS=lo>=0 and hi<1<<(64*NL) and ((uh<=-1) if s<0 else ul>=0)
            else: l,h=d.interval(T_); okS=h<0 if s<0 else l>=0
            out.append(('returned word: negative or not',True if okS else None,''))
            E=d.expand(padd(pscale(limbs_value(d,L),1<<K),pscale(T_,s),-1)); N=1<<(64*NL+K)
            D0={m:x for m,x in E.items() if x%N}
            l,h=d.bound(E_:={m:(x+N//2)%N-N//2 for m,x in D0.items()})
            # E = D0 mod N, |D0|<2^31; 0 <= 2^31 V <= N-2^31, 0 <= sT <= 2^31 p  =>  E = D0; 2^31 | T => E = 0
            out.append(('2^31 r = |a f + b g| when 2^31 divides',True if -(1<<K)<l and h<(1<<K) else False,'%d terms'%len(D0)))
            out.append(('limbs are 64-bit words',limb_ranges_ok(d,L),''))
            out.append(('arguments unchanged',all(x.v[0] is y for x,y in zip(c.cells,c.el)),''))
        assert P<<(2*K)<1<<(64*NL+K)-2
        return out
    return run

# ------------------------------------------------------------------ the loops (bit-vector back end, cut at the loop heads)
import loopinv
from loopinv import collect,rewrite,headers,Dead,DEAD
import gcdsim
from live import live_in
def isel(v): return isinstance(v,tuple) and len(v)==1 and isinstance(v[0],tuple) and len(v[0])==NL
def toint(v): return sum(w<<(64*i) for i,w in enumerate(v[0]))
def ofint(x): return (tuple((x>>(64*i))&M64 for i in range(NL)),)
def sgn64(x): return x-(1<<64) if x>>63 else x
class Conc(Domain):
    def adc(self,ctx,x,y,c): t=x+y+c; return t&M64,t>>64
    def sbb(self,ctx,x,y,c): t=x-y-c; return t&M64,int(t<0)
    def mulx(self,ctx,x,y): t=x*y; return t&M64,t>>64
def conc_contracts(log):
    def lindiv(ctx,a):
        x,y=[toint(ctx.load(r)) for r in a[1:3]]; f,g=sgn64(a[3]),sgn64(a[4]); t=x*f+y*g
        o=(abs(t)>>31)&((1<<(64*NL))-1)
        log.append(('lindiv',x,y,f,g,o,t<0)); ctx.store(a[0],ofint(o)); return M64 if t<0 else 0
    def montylin(ctx,a):
        x,y=[toint(ctx.load(r)) for r in a[1:3]]; f,g=sgn64(a[3]),sgn64(a[4])
        o=(x*f+y*g)*pow(1<<64,-1,P)%P
        log.append(('mont',x,y,f,g,o)); ctx.store(a[0],ofint(o)); return ()
    def mul(ctx,a):
        ctx.store(a[0],ofint(toint(ctx.load(a[0]))*toint(ctx.load(a[1]))*RINV%P)); return ()
    return {FP+'set_lindiv31abs':lindiv,FP+'set_montylin':montylin,FP+'set_mul':mul}
def leaves(frame,only=None):
    """Fp elements and machine words held by the frame (by some of its locals) and by what it refers to"""
    if only is not None: frame={l:c for l,c in frame.items() if l in only}
    out={}; seen={id(c) for c in frame.values()}
    def w(v,key):
        if isel(v) or isinstance(v,Sym) or (isinstance(v,int) and not isinstance(v,bool)): out[key]=v; return
        for i,x in enumerate(loopinv.kids(v)): w(x,key+(i,))
        if isinstance(v,Ref) and id(v.cell) not in seen:
            seen.add(id(v.cell)); w(v.cell.v,key+('*',))
    for l in sorted(frame,key=str): w(frame[l].v,(l,))
    return out
def subst_leaves(frame,f):
    """f(key,value) -> replacement or None, on the leaves"""
    seen={id(c) for c in frame.values()}
    def w(v,key):
        if isel(v) or isinstance(v,Sym) or (isinstance(v,int) and not isinstance(v,bool)):
            r=f(key,v); return v if r is None else r
        k=loopinv.kids(v)
        if k:
            n=tuple(w(x,key+(i,)) for i,x in enumerate(k))
            if any(x is not y for x,y in zip(n,k)):
                if isinstance(v,VecVal): v=VecVal(n)
                elif isinstance(v,Enum): v=Enum(v.idx,v.name,n)
                elif isinstance(v,Closure): v=Closure(v.name,n)
                else: v=n
        if isinstance(v,Ref) and id(v.cell) not in seen:
            seen.add(id(v.cell)); v.cell.v=w(v.cell.v,key+('*',))
        return v
    for l in sorted(frame,key=str): frame[l].v=w(frame[l].v,(l,))
def pilot(crate,fn,x,y,repl=None):
    """one run on numbers: the value of every leaf at every arrival at a loop head, and the calls made.
    repl(n,head,key) -> number: what the operands are replaced by at the outer loop head (so that the later rounds of
    the run are not degenerate)"""
    log=[]; cnt={}
    def hook(ctx,f,bb,frame):
        if bb in heads(f):
            h=(f.name,bb); cnt[h]=cnt.get(h,-1)+1
            if repl and h==repl[0]:
                def rp(k,v):
                    r=repl[1](cnt[h],k); return None if r is None else ofint(r)
                subst_leaves(frame,rp)
            log.append(('head',h,{k:v for k,v in leaves(frame).items()}))
    def md():
        d=Conc(conc_contracts(log)); d.block_hook=hook; return d
    f=crate.get(fn)
    for o in explore(crate,md,f,lambda ctx:div_args(ctx,f,ofint(x),ofint(y))): return log
def div_args(ctx,f,x,y):
    """(self,y) of set_div, or (self) of legendre"""
    v=[x,y] if len(f.args)>1 else [y]
    ctx.cells=[Cell(e) for e in v]
    return [Ref(c) if t.startswith('&') else c.v for t,c in zip(f.args,ctx.cells)]
class Shape(Unsupported): pass
def jstep(l,swap,a,b,b2): return l^(swap&(a>>1)&(b>>1)&1)^((b2>>1)&1)^((b2>>2)&1)
def roles(crate,fn,runs=2):
    """which leaf plays which part at which loop head, from runs on random numbers"""
    rnd=random.Random(7)
    found=None
    for _ in range(runs):
        log=pilot(crate,fn,rnd.randrange(1,P),rnd.randrange(1,P))
        outer,ro,J,first=roles0(log)
        tab=[(rnd.randrange(2,P),rnd.randrange(1,P)|1) if j<J else (rnd.randrange(1<<32,1<<33),rnd.randrange(1<<30,1<<31)|1) for j in range(J+1)]
        log=pilot(crate,fn,rnd.randrange(1,P),rnd.randrange(1,P),(outer,lambda n,k:tab[n][ro[k]] if k in ro and n<=J else None))
        r=roles1(log,outer,J,first,tab)
        if found is None: found=r; continue
        if {k:v['kind'] for k,v in found['heads'].items()}!={k:v['kind'] for k,v in r['heads'].items()} or found['J']!=r['J'] or found['steps']!=r['steps']: raise Shape('control depends on the data')
        for h,v in found['heads'].items():
            w=r['heads'][h]['roles']; v['roles']={k:[x for x in n if x in w.get(k,())] for k,n in v['roles'].items()}
    for h,v in found['heads'].items():
        v['roles']={k:n[0] for k,n in v['roles'].items() if n}
        need={'a','b'} if v['kind']=='outer' else {'xa','xb'}
        if need-set(v['roles'].values()): raise Shape('operands not found at a loop head %s %s %s'%(h[1],v['kind'],str(v['roles'])[:200]))
    return found
def roles0(log):
    """the outer loop head, the operands' places, the number of rounds"""
    lins=[i for i,e in enumerate(log) if e[0]=='lindiv']
    if not lins or len(lins)%2: raise Shape('two linear combinations per round expected')
    J=len(lins)//2
    hs=sorted({e[1] for e in log if e[0]=='head'})
    for h in hs:
        q=[i for i,e in enumerate(log) if e[0]=='head' and e[1]==h]
        if len(q)==J+1 and all(q[j]<lins[2*j] and lins[2*j+1]<q[j+1] for j in range(J)): break
    else: raise Shape('no outer loop found')
    ab=[(log[lins[2*j]][1],log[lins[2*j]][2]) for j in range(J)]
    first=None
    for j in range(J-1):
        o=(log[lins[2*j]][5],log[lins[2*j+1]][5])
        if o[0]!=o[1]: first=0 if o[0]==ab[j+1][0] else 1; break
    if first is None: raise Shape('operands')
    keys=set.intersection(*[set(log[i][2]) for i in q[:J]]); ro={}
    for k in keys:
        for n in(0,1):
            if all(isel(log[i][2][k]) and toint(log[i][2][k])==ab[j][n] for j,i in enumerate(q[:J])): ro[k]=n
    if set(ro.values())!={0,1}: raise Shape('operands not found at the outer loop head')
    return h,ro,J,first
def roles1(log,outer,J,first,ab):
    lins=[i for i,e in enumerate(log) if e[0]=='lindiv']
    q=[i for i,e in enumerate(log) if e[0]=='head' and e[1]==outer]
    out_=[(log[lins[2*j+first]],log[lins[2*j+1-first]]) for j in range(J)]
    keys=set.intersection(*[set(log[i][2]) for i in q])
    R_=lambda nm,ok: [k for k in keys if all(ok(log[i][2][k],j) for j,i in enumerate(q))]
    ro={}
    def add(ro,keys,nm):
        for k in keys: ro.setdefault(k,[]).append(nm)
    el=lambda v,n: isel(v) and toint(v)==n
    add(ro,R_('a',lambda v,j:el(v,ab[j][0])),'a'); add(ro,R_('b',lambda v,j:el(v,ab[j][1])),'b')
    mon=[[e for e in log[q[j]:(q[j+1] if j<J else len(log))] if e[0]=='mont'] for j in range(J+1)]
    if all(mon):
        add(ro,R_('u',lambda v,j:el(v,mon[j][0][1])),'u'); add(ro,R_('v',lambda v,j:el(v,mon[j][0][2])),'v')
    # the inner loops and the sign
    l=0; ls=[]; inner={}; steps=[]; lseq={}
    for j in range(J+1):
        seg=[(i,log[i]) for i in range(q[j],q[j+1] if j<J else len(log)) if log[i][0]=='head' and log[i][1]!=outer]
        ls.append(l)
        a,b=ab[j]; s=None; k=0; st=[]
        i0=0
        while i0<len(seg):
            h=seg[i0][1][1]; i1=i0
            while i1<len(seg) and seg[i1][1][1]==h: i1+=1
            ar=[e[2] for _,e in seg[i0:i1]]; i0=i1
            if len(ar)<2 or (0<j<J and h not in inner) or 'iszero' in h[0]: continue
            ks=set.intersection(*[set(x) for x in ar]); ks=[x for x in ks if all(isinstance(y[x],int) for y in ar)]
            hit=None
            for t,x_,y_ in ([(s,None,None)] if s else [])+[((ar[0][x],ar[0][y],1,0,0,1),x,y) for x in ks for y in ks if x!=y and ar[0][y]&1 and (('xa' in inner[h]['roles'].get(x,()) and 'xb' in inner[h]['roles'].get(y,())) if h in inner else len({w[x] for w in ar})>len(ar)//2)]:
                if s and t is not s and (h in inner and inner[h].get('cont')): continue
                seqs=[t]
                for _ in ar[1:]: seqs.append(gcdsim.step(seqs[-1]))
                ok={nm:[x for x in ks if all(y[x]==gcdsim.ENC[nm](z) for y,z in zip(ar,seqs))] for nm in gcdsim.ENC}
                if ok['xa'] and ok['xb'] and (t is s or (x_ in ok['xa'] and y_ in ok['xb'])) and (t is not s or len({z[0] for z in seqs})>len(ar)//2) and (ok['fg1'] or ok['f1'] or len(ar)<4 or t is s or not mon[j]): hit=(seqs,ok,t is s); break
            if hit is None:
                if h in inner: raise Shape('inner loop does not follow the algorithm')
                continue
            seqs,ok,cont=hit
            if not cont: k=0
            ent=inner.setdefault(h,dict(kind='inner',roles=None,cont=cont,n=set()))
            if ent['cont']!=cont: raise Shape('inner loop resumes irregularly')
            # true values, true low words, the sign
            L=[l]; ta=[]; 
            al=[(z[2]*a+z[3]*b)>>(k+i) for i,z in enumerate(seqs)]; be=[(z[4]*a+z[5]*b)>>(k+i) for i,z in enumerate(seqs)]
            for i in range(len(ar)-1):
                z=seqs[i]; sw=(z[0]&1)&int(z[0]<z[1])
                l=jstep(l,sw,al[i],be[i],be[i+1]); L.append(l)
            t0=[((z[2]*(a&M64)+z[3]*(b&M64))&M64)>>k for z in seqs[:1]]; t1=[((z[4]*(a&M64)+z[5]*(b&M64))&M64)>>k for z in seqs[:1]]
            for i in range(len(ar)-1):
                z=seqs[i]; x,y=t0[-1],t1[-1]
                if z[0]&1:
                    if z[0]<z[1]: x,y=y,x
                    x=(x-y)&M64
                t0.append(x>>1); t1.append(y)
            ok['ta']=[x for x in ks if all(y[x]==z for y,z in zip(ar,t0))]; ok['tb']=[x for x in ks if all(y[x]==z for y,z in zip(ar,t1))]
            ok['ls']=[x for x in ks if all(y[x]&1==z for y,z in zip(ar,L))]
            r={}
            for nm in('xa','xb','fg0','fg1','f0','g0','f1','g1','ta','tb','ls'):
                for x in ok[nm]: r.setdefault(x,[]).append(nm)
            ent['roles']=r if ent['roles'] is None else {x:[n for n in v if n in r.get(x,())] for x,v in ent['roles'].items()}
            ent['n'].add(len(ar)-1); k+=len(ar)-1; st.append((h,len(ar)-1)); s=seqs[-1]
        steps.append(tuple(st))
        if j<J:
            if out_[j][0][6]: l^=(out_[j][1][5]>>1)&1
    add(ro,R_('ls',lambda v,j:isinstance(v,int) and v&1==ls[j]),'ls')
    for h,v in inner.items(): v['roles']={x:n for x,n in v['roles'].items() if n}
    H={outer:dict(kind='outer',roles=ro)}; H.update(inner)
    return dict(heads=H,J=J,steps=steps,outer=outer,first=first)
_H={}
def heads(f):
    if f.name not in _H: _H[f.name]=headers(f)
    return _H[f.name]

class Ghost: pass
def zfacts(pc):
    """the facts about the outcome of the zero test"""
    return [c for c in pc if [str(v) for v in z3util.get_vars(c)]==['zero']]
from z3 import z3util
BVV=lambda n,w=64: z3.BitVecVal(n&((1<<w)-1),w)
class GcdDom(BVDom):
    cache={}
    def __init__(self,contracts,shape,log):
        BVDom.__init__(self,contracts); self.shape=shape; self.log=log; self.g=Ghost(); self.keep=[]
    memo={}
    def memoised(self,fn,t,ty):
        k=(t.get_id(),fn,ty); r=self.memo.get(k)
        if r is None: r=self.memo[k]=(t,BVDom.out(self,t,ty) if fn else BVDom.outb(self,t))
        return r[1]
    def out(self,t,ty=None): return self.memoised(1,t,ty)
    def outb(self,t): return self.memoised(0,t,None)
    def binop(self,ctx,op,ty,a,b):
        if op.startswith('Mul') and ty=='u64' and self.g.st is not None: a,b=self.factor(a),self.factor(b)
        return BVDom.binop(self,ctx,op,ty,a,b)
    def factor(self,v):
        """a word known to be one of the current factors, by its name"""
        if not isinstance(v,BV) or v.t.num_args()==0: return v
        for f in self.g.st[2:]:
            if not z3.is_bv_value(f) and self.valid(v.t==f) is True: return BV(f)
        return v
    # ---- a fork in the middle of a round: the other branch runs in a child process up to the next cut, where its state
    # must be the one found on this branch
    def branch(self,ctx,v,label):
        if self.g.j<0: return BVDom.branch(self,ctx,v,label)
        t=v.t if isinstance(v,BB) else v.t!=0
        r1=self.check(t)[0]
        if r1==z3.unsat: return False
        r2=self.check(z3.Not(t))[0]
        if r2==z3.unsat: return True
        if r1==z3.unknown or r2==z3.unknown: raise Unsupported('solver timeout on branch')
        r,w=os.pipe(); pid=os.fork()
        if pid==0:
            os.close(r); self.sp['child']=w; self.sp['kids']=[]; self.sp['start']=len(self.log); self.sp['new']=[]
            self.pc=self.pc+[z3.Not(t)]; return False
        os.close(w); self.sp['kids'].append((pid,r)); self.pc=self.pc+[t]; return True
    def join(self,digest):
        """at a cut, or (None) at the end"""
        sp=self.sp
        if sp['child'] is None and not sp['kids']: return
        dg=digest() if digest else None
        for k in list(sp['kids']):
            sp['kids'].remove(k); m=recv(*k)
            self.log+=m['log']; sp['proved'].update(m['new']); sp['new']+=m['new']
            if m['kind']=='unsupported': raise Unsupported(m['msg'])
            if any(l[1] is not True for l in m['log']): raise Stop()
            if m['dg']!=dg and os.environ.get('GCDT'): open('/tmp/dg','w').write((m['dg'] or '')+chr(10)+(dg or ''))
            if m['dg']!=dg: raise Shape('the two sides of a branch do not meet')
        if sp['child'] is not None: send(sp,dict(kind='cut',dg=dg,log=self.log[sp['start']:]))
    def check(self,*cs):
        k=('check',)+tuple(sorted(c.get_id() for c in tuple(self.pc)+cs)); r=self.cache.get(k)
        if r is None: r=self.cache[k]=(BVDom.check(self,*cs),tuple(self.pc)+cs)
        return r[0]
    # ---- queries, remembered: the same loop body gives the same terms every time round
    def valid(self,goal,extra=()):
        pc=tuple(self.pc)+tuple(extra); g0=goal
        k=(goal.get_id(),tuple(sorted(c.get_id() for c in pc)))
        r=self.cache.get(k)
        hk=None
        if r is None and self.sp['child'] is not None:
            hk=hash_(goal.sexpr()+'|'+'|'.join(sorted(c.sexpr() for c in pc)))
            if hk in self.sp['proved']: return True
        if r is None:
            goal=simp(goal)
            if z3.is_true(goal): self.cache[k]=(True,'',g0,pc); return True
            t0=time.time(); s=z3.Solver(); s.set('timeout',60000)
            for c in pc: s.add(c)
            s.add(z3.Not(goal)); q=s.check(); self.time+=time.time()-t0; self.calls+=1
            m=str(s.model())[:300] if q==z3.sat else ''
            r=self.cache[k]=((True if q==z3.unsat else False if q==z3.sat else None),m,g0,pc)
        self.model=r[1]
        if hk and r[0]: self.sp['proved'].add(hk); self.sp['new'].append(hk)
        return r[0]
    def same(self,v,t):
        """machine word v equal to the term t"""
        try: x=self.lift(v,'u64')
        except Unsupported: return None
        return self.valid(x==t)
    def same_signed(self,v,t,ng):
        """v = t or -t according to the word ng, which is 0 or -1"""
        try: x=self.lift(v,'u64')
        except Unsupported: return None
        r=self.valid(simp(z3.substitute(x,(ng,BVV(0))))==t,[ng==BVV(0)])
        if r is not True: return r
        return self.valid(simp(-z3.substitute(x,(ng,BVV(-1))))==t,[ng==BVV(-1)])
    def vc(self,label,ok,info=''):
        """a verification condition; a failure ends the run"""
        import sys
        if os.environ.get('GCDT'): print(os.getpid(),'%7.1f'%time.process_time(),self.g.j,self.g.k if hasattr(self.g,'k') else '',label,ok,file=sys.stderr)
        self.log.append((label,ok,info or (getattr(self,'model','') if ok is False else '')))
        if ok is not True: raise Stop()
class Stop(Exception): pass
import time,os,pickle
def send(sp,m):
    m['new']=sp['new']
    m['log']=[(l[0],l[1],str(l[2]) if len(l)>2 else '') for l in m['log']]
    try:
        with os.fdopen(sp['child'],'wb') as f: pickle.dump(m,f)
    finally: os._exit(0)
def recv(pid,fd):
    with os.fdopen(fd,'rb') as f: b=f.read()
    os.waitpid(pid,0)
    return pickle.loads(b) if b else dict(kind='unsupported',msg='a branch gave no answer',log=[],dg=None,new=[])
def show(v):
    if isinstance(v,(BV,BB)): return v.t.sexpr()
    if isel(v): return tuple(show(w) for w in v[0])
    return 'dead' if isinstance(v,Dead) else repr(v) if isinstance(v,int) else type(v).__name__
def digest_of(d,h,frame,f):
    only=live_in(f)[h[1]]
    G=d.g; ex=lambda t: t.sexpr() if hasattr(t,'sexpr') else repr(t)
    return lambda: hash_(repr((h,G.j,G.c,getattr(G,'k',None),G.how if hasattr(G,'how') else None,[ex(x) for x in(G.st or ())],[ex(x) for x in (G.t or ())],ex(G.l),[c.sexpr() for c in d.pc],[(str(k),show(v)) for k,v in leaves(frame,only).items()])))
def hash_(x):
    import hashlib; return hashlib.sha256(x.encode()).hexdigest()
def same_el(x,y):
    return x is y or (isel(x) and isel(y) and all(p is q or (isinstance(p,int) and isinstance(q,int) and p==q) or (isinstance(p,BV) and isinstance(q,BV) and p.t.eq(q.t)) for p,q in zip(x[0],y[0])))
def sbv(n): return z3.BitVec(n,64)
def absv(x): return z3.If(x<0,-x,x)
def bsel(c,x,y): return z3.If(c,x,y)
def g_step(s):
    """the step of the binary GCD on words"""
    xa,xb,f0,g0,f1,g1=s
    odd=z3.Extract(0,0,xa)==1; sw=z3.And(odd,z3.ULT(xa,xb))
    pick=lambda e,n,w: z3.If(sw,w,z3.If(odd,n,e))
    return (pick(z3.LShR(xa,1),z3.LShR(xa-xb,1),z3.LShR(xb-xa,1)),z3.If(sw,xa,xb),
        pick(f0,f0-f1,f1-f0),pick(g0,g0-g1,g1-g0),2*z3.If(sw,f0,f1),2*z3.If(sw,g0,g1))
def t_step(s,t):
    odd=z3.Extract(0,0,s[0])==1; sw=z3.And(odd,z3.ULT(s[0],s[1])); ta,tb=t
    return (z3.If(sw,z3.LShR(tb-ta,1),z3.If(odd,z3.LShR(ta-tb,1),z3.LShR(ta,1))),z3.If(sw,ta,tb))
def l_step(s,l,al,be,be2):
    sw=z3.And(z3.Extract(0,0,s[0])==1,z3.ULT(s[0],s[1]))
    x=z3.If(sw,z3.Extract(1,1,al)&z3.Extract(1,1,be),z3.BitVecVal(0,1))
    return l^x^z3.Extract(1,1,be2)^z3.Extract(2,2,be2)
def b_inv(s,k):
    xa,xb,f0,g0,f1,g1=s; K=BVV(1<<k); c=[z3.Extract(0,0,xb)==1]
    for v in(f0,g0,f1,g1): c+=[v>-K,v<=K]
    if k: c+=[z3.Extract(0,0,f1)==0,z3.Extract(0,0,g1)==0]
    return c
_BL=[]
def bounds_lemma():
    """one step keeps -K < f <= K, |f|+|g| <= K with K doubled, for every K (integers; words of 64 bits hold them while
    2K < 2^63, so that the wrapping operations of g_step are the integer ones)"""
    if _BL: return _BL[0]
    f0,g0,f1,g1,K=z3.Ints('f0 g0 f1 g1 K'); s=z3.Solver(); s.set('timeout',60000)
    ab=lambda x: z3.If(x<0,-x,x)
    inv=lambda f,g,K: z3.And(f>-K,f<=K,g>-K,g<=K,ab(f)+ab(g)<=K)
    s.add(K>=1,inv(f0,g0,K),inv(f1,g1,K))
    ok=True
    for a,b,c,e in((f0,g0,f1,g1),(f0-f1,g0-g1,f1,g1),(f1-f0,g1-g0,f0,g0)):
        s.push(); s.add(z3.Not(z3.And(inv(a,b,2*K),inv(2*c,2*e,2*K)))); r=s.check(); s.pop()
        if r!=z3.unsat: ok=None if r==z3.unknown else False
    _BL.append(ok); return ok
B_ENC={'xa':lambda s:s[0],'xb':lambda s:s[1],'fg0':lambda s:s[2]+(s[3]<<32),'fg1':lambda s:s[4]+(s[5]<<32),'f0':lambda s:s[2],'g0':lambda s:s[3],'f1':lambda s:s[4],'g1':lambda s:s[5]}
def el_sym(name): return (tuple(BV(sbv('%s%d'%(name,i))) for i in range(NL)),)
def approx_goals(d,X,W,A,B):
    """X (for A) is the 64-bit approximation of the operand W; yields (label, verdict)"""
    low=(1<<31)-1; w=[x.t for x in W[0]]; a=[x.t for x in A[0]]; b=[x.t for x in B[0]]
    if z3.is_bv_value(X): raise Unsupported('approximation is a constant')
    yield 'low 31 bits',d.valid((X&low)==(w[0]&low))
    for j in range(NL-1,-1,-1):
        sub=[(v[i],BVV(0)) for i in range(j+1,NL) for v in(a,b)]
        x=z3.simplify(z3.substitute(X,*sub)) if sub else X
        pc=[z3.substitute(c,*sub) if sub else c for c in d.pc]
        m=a[j]|b[j]; save=d.pc
        d.pc=pc
        try:
            if j==0: yield 'both operands below 2^64',d.valid(x==w[0]); continue
            sh=sbv('shift'); y=z3.Concat(w[j],w[j-1])<<z3.ZeroExt(64,sh)
            ex=[m!=0,z3.ULT(sh,64),z3.Extract(63,63,m<<sh)==1,z3.LShR(m<<sh,sh)==m]
            yield 'leading word %d'%j,d.valid(x==z3.Concat(z3.Extract(127,95,y),z3.Extract(30,0,w[0])),ex)
        finally: d.pc=save
def approx_memo(d,X,W,A,B):
    k=('approx',X.get_id(),nm(W),nm(A),nm(B))+tuple(sorted(c.get_id() for c in d.pc)); r=d.cache.get(k)
    if r is None:
        r=[]
        for lab,ok in approx_goals(d,X,W,A,B):
            r.append((lab,ok))
            if ok is not True: break
        d.cache[k]=r=(r,X,list(d.pc))
    return r[0]
def nm(el): return tuple(str(w.t) for w in el[0])
def gcd_hook(ctx,f,bb,frame):
    d=ctx.dom; h=(f.name,bb); sh=d.shape['heads'].get(h)
    if sh is None: return
    G=d.g; lv=leaves(frame)
    if sh['kind']=='outer':
        R_={k:n for k,n in sh['roles'].items() if k in lv}
        by={}
        for k,n in R_.items(): by.setdefault(n,[]).append(k)
        if 'a' not in by or 'b' not in by: raise Shape('operands missing at the loop head')
        G.j+=1; val=lambda n: lv[by[n][0]]
        for n,ks in by.items():
            if n!='ls' and not all(same_el(lv[k],val(n)) for k in ks): raise Shape('copies differ')
        uv='u' in by and 'v' in by
        if G.j==0:
            d.vc('start: a = divisor',same_el(val('a'),ctx.y)); d.vc('start: b = p',toint(val('b'))==P if all(isinstance(w,int) for w in val('b')[0]) else False)
            if uv:
                d.vc('start: u = dividend',same_el(val('u'),ctx.x)); d.vc('start: v = 0',same_el(val('v'),ofint(0)))
            G.l=z3.BitVecVal(0,1); G.c=1
        else:
            ta,tb=[d.g.tok.get(id(val(n)[0])) for n in 'ab']
            d.vc('round: a, b are the two combinations',ta is not None and tb is not None and ta[0]==tb[0]=='lin' and (ta[1],tb[1])==(0,1))
            if uv:
                tu,tv=[d.g.tok.get(id(val(n)[0])) for n in 'uv']
                ok=tu is not None and tv is not None and tu[0]==tv[0]=='mont' and (tu[1],tv[1])==(0,1)
                d.vc('round: u, v follow a, b with the same signs',ok and tu[2] is ta[2] and tv[2] is tb[2])
            # a x = c y u:  a' x = +-(f a+g b) x/2^31 = c y (+-(f u+g v))/2^31 = c 2^64/2^31 y u'
            G.c=G.c*pow(2,33,P)%P
            if 'ls' in by: G.l=G.l^z3.If(ta[2]==BVV(-1),z3.Extract(1,1,val('b')[0][0].t),z3.BitVecVal(0,1))
        for k in by.get('ls',[]): d.vc('sign of the symbol, round',d.valid(z3.Extract(0,0,d.lift(lv[k],'u64'))==G.l))
        G.A,G.B,G.U,G.V=[d.shape['el'][n] for n in 'ABUV']; G.tok={}; G.n=0; G.st=None; G.inst=None; G.out=lv
        new={'a':G.A,'b':G.B,'u':G.U,'v':G.V,'ls':BV(sbv('LS'))}
        d.pc=zfacts(d.pc)+[z3.Extract(0,0,G.B[0][0].t)==1]; G.base=list(d.pc); G.l=z3.Extract(0,0,sbv('LS'))
        first=G.j==0
        if first: ctx.olv=lv
        def rp(k,v):
            if k in R_: return new[R_[k]]
            if isinstance(v,Sym) and not isinstance(v,Dead): 
                w=ctx.olv.get(k)
                if first or (w is not None and loopinv.same(w,v)) or (isinstance(w,BV) and isinstance(v,BV) and w.t.eq(v.t)): return None
                return DEAD
            if isel(v) and not first and k in ctx.olv and not same_el(v,ctx.olv[k]): return (tuple([DEAD]*NL),)
        subst_leaves(frame,rp)
        d.join(digest_of(d,h,frame,f))
        return
    # an inner loop head
    if G.j<0: raise Shape('inner loop before the outer one')
    R_={k:n for k,n in sh['roles'].items() if k in lv}; by={}
    for k,n in R_.items(): by.setdefault(n,[]).append(k)
    if not {'xa','xb'}<=set(by): raise Shape('operands missing at an inner loop head')
    new_inst=G.inst!=h
    tm=lambda k: d.lift(lv[k],'u64')
    if new_inst and not sh['cont']:
        G.k=0; G.inst=h; G.how=None
        X,Y=[tm(by[n][0]) for n in('xa','xb')]
        last=G.j==d.shape['J']
        if last:
            d.vc('last loop: low words',d.valid(X==G.A[0][0].t) and d.valid(Y==G.B[0][0].t)); G.how='exact'
        else:
            for W,V,nm in((G.A,X,'a'),(G.B,Y,'b')):
                for lab,ok in approx_memo(d,V,W,G.A,G.B): d.vc('approximation of %s: %s'%(nm,lab),ok)
            G.how='approx'
        s=(X,Y,BVV(1),BVV(0),BVV(0),BVV(1)); first=True
    else:
        if new_inst:
            G.inst=h; s=G.st; first=True
        else:
            s=g_step(G.st); G.k+=1; first=False
            if 'ls' in by:
                al,be,be2=(G.st[0],G.st[1],s[1]) if (G.how=='exact' or G.k<=29) else (G.t[0],G.t[1],t_step(G.st,G.t)[1])
                G.l=l_step(G.st,G.l,al,be,be2)
            if G.t is not None: G.t=t_step(G.st,G.t)
    if new_inst and not ('ta' in by and sh['cont']): G.t=None
    elif new_inst:
        A0,B0=G.A[0][0].t,G.B[0][0].t
        G.t=tuple(z3.LShR(A0*f_+B0*g_,G.k) for f_,g_ in((s[2],s[3]),(s[4],s[5])))
    if first: ctx.ilv=lv
    if 'ls' in by and G.how=='approx' and G.k>=29 and G.t is None and any(e!=h for e in ()): raise Shape('low words')
    for k,n in R_.items():
        if n=='ls': d.vc('sign of the symbol, step %d'%G.k,d.valid(z3.Extract(0,0,tm(k))==G.l))
        elif n in('ta','tb'):
            d.vc('low word of the operand, step %d'%G.k,d.valid(tm(k)==G.t[n=='tb']))
        else: d.vc('step %d: %s'%(G.k,n),d.valid(tm(k)==B_ENC[n](s)))
    if first and not(new_inst and sh['cont']): pass   # (1,0),(0,1): within 2^0
    else:
        d.vc('the factors stay within 2^k',bounds_lemma() if G.k<62 else None)
    d.vc('step %d: b odd'%G.k,d.valid(z3.Extract(0,0,s[1])==1))
    pre='last ' if G.how=='exact' else ''
    G.st=tuple(sbv('%s%s_%d'%(pre,n,G.k)) for n in('xa','xb','f0','g0','f1','g1')) if G.k else (sbv(pre+'xa_0'),sbv(pre+'xb_0'))+s[2:]
    L=sbv('%sls_%d'%(pre,G.k)); G.l=z3.Extract(0,0,L) if 'ls' in by else G.l
    if G.t is not None: G.t=(sbv('ta_%d'%G.k),sbv('tb_%d'%G.k))
    d.pc=G.base+b_inv(G.st,G.k)
    new={n:BV(simp(e(G.st))) if not z3.is_bv_value(simp(e(G.st))) else simp(e(G.st)).as_long() for n,e in B_ENC.items()}; new['ls']=BV(L)
    if G.t is not None: new['ta'],new['tb']=BV(G.t[0]),BV(G.t[1])
    elif not first or sh['cont']:
        pass
    def rp(k,v):
        if k in R_ and R_[k] in new: return new[R_[k]]
        if isinstance(v,Sym) and not isinstance(v,Dead):
            w=ctx.ilv.get(k)
            if first or (isinstance(w,BV) and isinstance(v,BV) and w.t.eq(v.t)): return None
            return DEAD
    subst_leaves(frame,rp)
    d.join(digest_of(d,h,frame,f))
def gcd_contracts():
    def el(ctx,r): return ctx.load(r) if isinstance(r,Ref) else r
    def pair(d,f,g,need):
        """which pair of factors, with which sign"""
        G=d.g
        if G.st is None: return None
        for i in(0,1):
            F_,G_=G.st[2+2*i],G.st[3+2*i]
            for sg in need:
                if sg is not None and sg not in G.neg: continue
                e=d.same if sg is None else (lambda x,y,sg=sg: d.same_signed(x,y,G.neg[sg]))
                r=e(f,F_)
                if r: r=e(g,G_)
                if r is None: raise Shape('factors: solver gave no answer')
                if r: return i,(None if sg is None else G.neg[sg])
        return None
    def lindiv(ctx,a):
        d=ctx.dom; G=d.g
        if G.j<0: return NotImplemented
        x,y=el(ctx,a[1]),el(ctx,a[2])
        d.vc('combination of the operands a and b',same_el(x,G.A) and same_el(y,G.B))
        if G.st is None or G.how!='approx': raise Shape('combination outside a round')
        q=pair(d,a[3],a[4],[None])
        if q is None: d.vc('factors of the combination are those of the inner loop',False,'f or g differs from the factor computed by the inner loop')
        d.vc('2^31 divides the combination: 31 steps',G.k==31)
        if G.n==0: G.neg={}
        i=q[0]
        ng=sbv('neg%d'%i); G.neg[i]=ng; d.pc=d.pc+[z3.Or(ng==0,ng==BVV(-1))]; G.n+=1
        o=d.shape['el']['NA' if i==0 else 'NB']; o=(tuple(o[0]),); G.tok[id(o[0])]=('lin',i,ng); d.keep.append(o)
        ctx.store(a[0],o); return BV(ng)
    def montylin(ctx,a):
        d=ctx.dom; G=d.g
        if G.j<0: return NotImplemented
        x,y=el(ctx,a[1]),el(ctx,a[2])
        d.vc('combination of u and v',same_el(x,G.U) and same_el(y,G.V))
        if G.st is None: raise Shape('combination outside a round')
        q=pair(d,a[3],a[4],[None] if G.how=='exact' else [0,1])
        if q is None: d.vc('factors of the combination of u and v',False,'f or g differs from the factor computed by the inner loop, with the sign of the operand')
        d.vc('factors at most 2^62',True if G.k<=61 else None)   # +-F, |F| <= 2^k by the invariant
        o=(tuple(d.shape['el']['NU%d'%q[0] if G.how!='exact' else 'RES'][0]),); G.tok[id(o[0])]=('mont',)+q; d.keep.append(o)
        if G.how=='exact': G.fin=(o,q[0],G.k)
        ctx.store(a[0],o); return ()
    def iszero(ctx,a):
        x=el(ctx,a[0])
        if not same_el(x,ctx.y): raise Unsupported('zero test of another element')
        ctx.zero=z3.BitVec('zero',32); ctx.dom.pc.append(z3.Or(ctx.zero==0,ctx.zero==z3.BitVecVal(ONES32,32)))
        return BV(ctx.zero)
    def mul(ctx,a):
        d=ctx.dom; G=d.g; x,y=el(ctx,a[0]),el(ctx,a[1])
        if not all(isinstance(w,int) for w in y[0]): raise Unsupported('product')
        if all(isinstance(w,int) for w in x[0]): ctx.store(a[0],ofint(toint(x)*toint(y)*RINV%P)); return ()
        o=(tuple(BV(sbv('M%d'%i)) for i in range(NL)),); G.mul=(x,toint(y),o); ctx.store(a[0],o); return ()
    return {FP+'set_lindiv31abs':lindiv,FP+'set_montylin':montylin,FP+'iszero':iszero,FP+'set_mul':mul}
def gcd_run(name,final):
    def run(env,res):
        f=env.fn(FP+name); out=[]
        shape=roles(env.crate,FP+name)
        shape['el']={n:el_sym(n) for n in('A','B','U','V','NA','NB','NU0','NU1','RES')}
        J,k=shape['J'],sum(n for _,n in shape['steps'][-1])
        sp=dict(child=None,kids=[],start=0,proved=set(),new=[])
        log=[('number of rounds',rounds_ok(J,k),'%d rounds of 31 steps and %d last ones for %d-bit operands'%(J,k,BL))]
        if log[0][1] is not True: return log
        def md():
            d=GcdDom(gcd_contracts(),shape,log); d.sp=sp; d.block_hook=gcd_hook; return d
        def mk(ctx):
            d=ctx.dom; G=d.g; G.j=-1; G.st=None; G.tok={}; G.neg={}; G.fin=None; G.mul=None; G.inst=None; G.t=None
            ctx.x,ctx.y=el_sym('X'),el_sym('Y'); ctx.zero=None
            return div_args(ctx,f,ctx.x,ctx.y)
        try:
            for o in explore(env.crate,md,f,mk):
                res.paths+=1; note(res,o.ctx)
                if o.kind!='return': log.append(('no panic',False,o.msg))
                else: log+=final(o.ctx,o.ret,shape)
                o.ctx.dom.join(None)
        except Stop: pass
        except Unsupported as e:
            if sp['child'] is not None: send(sp,dict(kind='unsupported',msg=str(e),dg=None,log=[]))
            raise
        except BaseException as e:
            if sp['child'] is not None: send(sp,dict(kind='unsupported',msg=repr(e),dg=None,log=[]))
            raise
        if sp['child'] is not None: send(sp,dict(kind='stop',dg=None,log=log[sp['start']:]))
        res.vcs+=len([1 for l in log if l[1] is True])
        bad=[l for l in log if l[1] is not True]
        return bad or log[-3:]
    return run
BL=P.bit_length()
def rounds_ok(J,k): return J*31+k>=2*BL-2 and 2*BL-31*J<=64 and k<=62
def div_final(ctx,r,shape):
    d=ctx.dom; G=d.g; s=ctx.cells[0].v
    if ctx.zero is None: yield 'a zero divisor is recognised',False,''; return
    Z=lambda n: ctx.zero==z3.BitVecVal(n,32); mz,mn=[d.check(Z(n))[0]!=z3.unsat for n in(ONES32,0)]
    def sv(n,e=s): return (tuple(d.out(z3.substitute(d.lift(w,'u64'),(ctx.zero,z3.BitVecVal(n,32)))) for w in e[0]),)
    z,nz=sv(ONES32),sv(0)
    def is0(el): return all(d.valid(d.lift(w,'u64')==0,[Z(ONES32)]) for w in el[0])
    def eq(el,el2,n=0): return all(d.valid(d.lift(w,'u64')==d.lift(x,'u64'),[Z(n)]) for w,x in zip(el[0],el2[0]))
    # set_mul is a function: the product is 0 when the factor is, and the named result otherwise
    if mz: yield 'zero divisor: result zero',is0(z) or (G.mul is not None and eq(z,G.mul[2],ONES32) and is0(sv(ONES32,G.mul[0]))),''
    if not mn: return
    if G.fin is None or G.mul is None or not eq(sv(0,G.mul[0]),G.fin[0]): yield 'result is the last combination times a constant',None,''; return
    yield 'result is the last combination times a constant',eq(nz,G.mul[2]),''
    yield 'last combination is that of b',G.fin[1]==1,''
    J,k=shape['J'],G.fin[2]
    yield 'number of rounds',rounds_ok(J,k) and G.how=='exact','%d rounds, %d steps'%(J,k)
    # y v c = b x, 2^64 r = f u + g v, f a + g b = 2^k (b is 1 at the end) => c 2^64 y r = 2^k x; r T/R = R x/y
    yield 'corrective factor',(G.mul[1]*pow(2,k,P)-R*R*G.c*pow(2,64,P))%P==0,'TFIXDIV'
    if len(ctx.cells)>1: yield 'divisor unchanged',same_el(ctx.cells[1].v,ctx.y),''

def leg_final(ctx,r,shape):
    d=ctx.dom; G=d.g
    if ctx.zero is None: yield 'zero is recognised',False,''; return
    Z=lambda n: ctx.zero==z3.BitVecVal(n,32); mz,mn=[d.check(Z(n))[0]!=z3.unsat for n in(ONES32,0)]
    t=d.lift(r,'i32'); at=lambda n: z3.substitute(t,(ctx.zero,z3.BitVecVal(n,32)))
    if mz: yield 'zero: symbol 0',d.valid(at(ONES32)==0,[Z(ONES32)]),''
    if not mn: return
    yield 'result is the sign that was kept',d.valid(at(0)==z3.If(G.l==1,z3.BitVecVal(-1,32),z3.BitVecVal(1,32)),[Z(0)]),''
    yield 'number of rounds',rounds_ok(shape['J'],G.k) and G.how=='exact','%d rounds, %d steps'%(shape['J'],G.k)
    # R = 2^(64 N) is a square: the symbol of the Montgomery representation is that of the element
    yield 'even power of two as Montgomery factor',R==1<<(64*NL) and NL*64%2==0,''

def c06(crate):
    obs=[]; p='C06'
    for sf in(0,1):
        for sg in(0,1):
            obs.append(Ob(p,'Fp::set_montylin, f%s0, g%s0'%('<' if sf else '>=','<' if sg else '>='),FP+'set_montylin','limb',montylin_run(sf,sg),search=['fp.div'],weight=6,fallback=True))
    for sf in(0,1):
        for sg in(0,1):
            obs.append(Ob(p,'Fp::set_lindiv31abs, f%s0, g%s0'%('<' if sf else '>=','<' if sg else '>='),FP+'set_lindiv31abs','limb',lindiv_run(sf,sg),search=['fp.div','fp.legendre'],weight=6,fallback=True))
    obs.append(Ob(p,'Fp::set_div',FP+'set_div','z3-bv, cut loops',gcd_run('set_div',div_final),search=['fp.div'],weight=30,timeout=600,fallback=True))
    obs.append(Ob(p,'Fp::legendre',FP+'legendre','z3-bv, cut loops',gcd_run('legendre',leg_final),search=['fp.legendre'],weight=30,timeout=600,fallback=True))
    # inversion, over the contract of division
    def iz(d,x): return d.equal(x,d.const(0))
    for nm in('set_invert','invert'):
        def mk(ctx,nm=nm): ctx.x=ctx.dom.var('x'); return refs(crate.get(FP+nm),[ctx.x],ctx)
        def post(ctx,r,nm=nm):
            d=ctx.dom; v=d.fe(ctx.cells[0].v if nm=='set_invert' else r)
            yield 'value',(d.equal(v,d.const(0)) if iz(d,ctx.x) else d.equal(d.mul(v,ctx.x),d.const(1)))
            if nm=='invert' and ctx.cells[0]: yield 'operand unchanged',ctx.cells[0].v is ctx.x
        obs.append(Ob(p,'Fp::'+nm,FP+nm,'field',field_run(FP+nm,mk,post),search=['fp.invert']))
    obs.append(Ob(p,'division and quadratic character of operands that are hard for the algorithm',FP+'set_div','native',None,bound='random and structured operands',native=[('fp.div',6000),('fp.legendre',6000),('fp.invert',2000)]))
    return obs
