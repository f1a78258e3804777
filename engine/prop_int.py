"""Integer helpers: extended gcd, Chinese remainders, integer square root."""
import z3,itertools
from obl import *
from intdom import *
from loopinv import *
DL='discrete_log::'
class NumDom(IntDom): pass

def xgcd_contract():
    """xgcd_big(a,b), b>=1: s in [0,b) with a*s = g mod b; coprimality is a fact of the caller (ctx.coprime)"""
    def h(ctx,a):
        ld=lambda v: ctx.load(v) if isinstance(v,Ref) else v
        x,y=ld(a[0]),ld(a[1]); d=ctx.dom
        if not d.proves(z3.And(d.z(x)>=1,d.z(y)>=1)): raise Unproved('modular inverse of a non-positive number or modulus')
        if not ctx.coprime(pol(x),pol(y)): raise Unproved('modular inverse of a number that need not be coprime to the modulus')
        key=(frozenset(pol(x).items()),frozenset(pol(y).items())); s=d.fresh('inv')
        d.assume(z3.And(z3.Int(s)>=0,z3.Int(s)<d.z(y))); ctx.invs.append((s,pol(x),pol(y)))
        return IV({(s,):1})
    return {DL+'xgcd_big':h}

def c10(crate):
    obs=[]; p='C10'
    # ---- extended Euclid
    def xg(env,res):
        fn=env.fn(DL+'xgcd_big'); out=[]
        def mk(ctx):
            d=ctx.dom; ctx.rules={}; ctx.ideal={}
            return [Ref(Cell(d.var('a',lo=1))),Ref(Cell(d.var('b',lo=1)))]
        def tmpl(ctx,vals,bb):
            ks=sorted(vals,key=str); c=[]
            for x,y in itertools.permutations(ks,2):
                c.append(Congr(x,y,'a','b')); c.append(Cand('%s>%s'%(x,y),[x,y],lambda u,v:u>v)); c.append(Cand('%s>=%s'%(x,y),[x,y],lambda u,v:u>=v))
            for x,y in itertools.combinations(ks,2): c.append(Ideal(x,y,'a','b'))
            for x in ks: c.append(Cand('%s>=0'%(x,),[x],lambda u:u>=0)); c.append(Cand('%s>0'%(x,),[x],lambda u:u>0))
            return c
        def meas(ctx,vals,bb): return [Measure(str(x),[x],lambda u:u) for x in vals]
        L=LoopProof(env,fn,lambda:IntDom({}),mk,tmpl,measures=meas)
        for o in L.run():
            res.paths+=1; note(res,o.ctx); d=o.ctx.dom
            if o.kind!='return':
                out.append(('no panic',None if d.feasible() else True,o.msg)); continue
            ctx=o.ctx; r=pol(o.ret)
            out.append(('0 <= result < b',d.proves(z3.And(d.z(r)>=0,d.z(r)<z3.Int('b'))) or None,''))
            # at the exit one member of a pair generating the ideal (a,b) is zero: the other is +-gcd(a,b)
            ok=None
            for (k1,k2),(u,v) in ctx.ideal.items():
                for g,z in((u,v),(v,u)):
                    if not d.proves(z3.And(z3.Int(z)==0,z3.Int(g)>0)): continue
                    goal=padd(pmul({('a',):1},r),{(g,):1},-1)
                    if congr_zero(ctx,goal,'b'): ok=True
            if not ctx.ideal: ok=None
            out.append(('a*result = gcd(a,b) mod b',ok,'invariants found: %s'%list(L.invariants.values())[:1]))
        for bb in L.loops: out.append(('loop terminates',None if bb in L.noterm else True,''))
        res.vcs+=L.vcs
        return out
    obs.append(Ob(p,'xgcd_big',DL+'xgcd_big','int+loop invariants',xg,search=['dl.xgcd'],fallback=True))
    # ---- square root
    for case in('n=0','n=1','n>=2'):
        def sq(env,res,case=case):
            fn=env.fn(DL+'sqrt_floor'); out=[]
            def mk(ctx):
                d=ctx.dom
                return [d.var('n',lo=2,hi=1<<32) if case=='n>=2' else int(case[2:])]
            def tmpl(ctx,vals,bb):
                ks=sorted(vals,key=str); c=[]; n=z3.Int('n'); 
                for x in ks:
                    for nm,f in(('>=0',lambda u:u>=0),('sq<=n',lambda u:u*u<=n),('sq<n',lambda u:u*u<n),('sq>n',lambda u:u*u>n),('sq>=n',lambda u:u*u>=n),('<=n',lambda u:u<=n),('<2^16',lambda u:u<65536),('<2^32',lambda u:u<(1<<32)),('+1 sq>n',lambda u:(u+1)*(u+1)>n)):
                        c.append(Cand('%s%s'%(x,nm),[x],f))
                for x,y in itertools.permutations(ks,2):
                    c.append(Cand('%s<%s'%(x,y),[x,y],lambda u,v:u<v)); c.append(Cand('%s=0 or %s<=131072'%(x,y),[x,y],lambda u,v:z3.Or(u==0,v<=131072)))
                return c
            def meas(ctx,vals,bb):
                ks=sorted(vals,key=str)
                return [Measure(str(x),[x],lambda u:u) for x in ks]+[Measure('%s-%s'%(x,y),[x,y],lambda u,v:u-v) for x,y in itertools.permutations(ks,2)]
            mkd=lambda:IntDom({})
            if case!='n>=2':
                outs=list(explore(env.crate,mkd,fn,mk)); L=None
            else:
                L=LoopProof(env,fn,mkd,mk,tmpl,measures=meas); outs=L.run(); res.vcs+=L.vcs
            for o in outs:
                res.paths+=1; note(res,o.ctx); d=o.ctx.dom
                if o.kind!='return':
                    v=not d.feasible()
                    w=None
                    if not v:
                        m=d.solver.model() if d.solver.check()==z3.sat else None
                        w=str(m) if m else None
                    out.append(('no panic',v or None,o.msg+(' '+w[:100] if w else ''))); continue
                r=d.z(o.ret); n=z3.Int('n') if case=='n>=2' else z3.IntVal(int(case[2:]))
                out.append(('r^2 <= n < (r+1)^2',d.proves(z3.And(r>=0,r*r<=n,n<(r+1)*(r+1))) or None,'invariants %s'%(L.invariants if L else '')))
            if L:
                for bb in L.loops: out.append(('loop terminates',None if bb in L.noterm else True,''))
            return out
        obs.append(Ob(p,'sqrt_floor, %s'%case,DL+'sqrt_floor','int+loop invariants',sq,search=['dl.sqrt'],fallback=True))
    # ---- Chinese remainders
    def crt(k):
        def run(env,res):
            fn=env.fn(DL+'compute_crt'); out=[]
            def mk(ctx):
                d=ctx.dom; ctx.invs=[]
                ls=[d.var('l%d'%i,lo=2,hi=1<<32) for i in range(k)]; es=[d.var('e%d'%i,lo=1,hi=1<<32) for i in range(k)]
                for i in range(k):
                    for j in range(i): d.assume(z3.Int('l%d'%i)!=z3.Int('l%d'%j))
                M=['M%d'%i for i in range(k)]; ctx.M=M
                for i in range(k):
                    d.assume(z3.Int(M[i])>=2)
                    d.pw[('p',tuple(sorted(pol(ls[i]).items())),tuple(sorted(pol(es[i]).items())))]=M[i]
                rs=[d.var('r%d'%i,lo=0) for i in range(k)]
                def mon(p_):   # a product of distinct prime powers
                    if len(p_)!=1: return None
                    (m,c),=p_.items()
                    if c!=1 or len(set(m))!=len(m) or any(v not in M for v in m): return None
                    return set(m)
                def coprime(x,y):
                    a,b=mon(x),mon(y); return a is not None and b is not None and not(a&b)
                ctx.coprime=coprime
                return [Ref(Cell(VecVal(rs))),Ref(Cell(tuple(zip(ls,es))),(),(0,k))]
            for o in explore(env.crate,lambda:IntDom(xgcd_contract()),fn,mk):
                res.paths+=1; note(res,o.ctx); d=o.ctx.dom; ctx=o.ctx
                if o.kind!='return': out.append(('no panic',None if d.feasible() else True,o.msg)); continue
                r=pol(o.ret)
                full=d.z({tuple(sorted(ctx.M)):1})
                out.append(('0 <= result < modulus',d.proves(z3.And(d.z(r)>=0,d.z(r)<full)) or None,''))
                for i in range(k):
                    g=padd(r,{('r%d'%i,):1},-1); g={m:c for m,c in g.items() if ctx.M[i] not in m}
                    # s*x -> 1 modulo M_i for every inverse s of x modulo M_i
                    for s,x,y in ctx.invs:
                        if y!={(ctx.M[i],):1}: continue
                        (mx,_),=x.items(); n={}
                        for m,c in g.items():
                            l=list(m); ok=s in l
                            if ok:
                                l.remove(s)
                                for v in mx:
                                    if v in l: l.remove(v)
                                    else: ok=False
                            n=padd(n,{tuple(sorted(l)) if ok else m:c})
                        g=n
                    out.append(('result = r%d mod l%d^e%d'%(i,i,i),True if not g else None,str(g)[:200]))
            return out
        return run
    for k in range(0,21):
        obs.append(Ob(p,'compute_crt, %d moduli'%k,DL+'compute_crt','int',crt(k),search=['dl.crt'],bound='%d moduli (all moduli, exponents and remainders)'%k,fallback=True))
    import prop_crt
    return prop_crt.crt_all_obs(p)+obs
