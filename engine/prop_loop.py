"""Repeated doubling: a loop invariant over the counter, for every iteration count."""
from prop_grp import *
def double_loop(fn,contracts,args):
    """contracts: names of the doubling functions and how they take their operands; result [2^n]P for every usize n.
    A point is represented by the number k of doublings applied to P."""
    def run(env,res):
        C={}; out=[]
        def on(ctx,v):
            if ld(ctx,v)!=ctx.E and ld(ctx,v) is not ctx.E: raise Refuted('doubling on something else')
        def up(x): return GE(padd(x.k,pconst(1)),x.b)
        for n,how in contracts.items():
            def h(ctx,a,how=how):
                on(ctx,a[0])
                if how=='self': ctx.store(a[1],up(el(ctx,a[1]))); return ()
                if how=='into': ctx.store(a[1],up(el(ctx,a[2]))); return ()
                return up(el(ctx,a[1]))
            C[n]=h
        def mk(ctx):
            ctx.dom.var('n',lo=0,hi=1<<64); ctx.E=Opaque('E'); ctx.p=Cell(GE({})); return args(ctx,IV({('n',):1}))
        def tmpl(ctx,vals,bb):
            c=[]; gs=[k for k,v in vals.items() if isinstance(v,GE)]; ints=[k for k in vals if k not in gs]; N=z3.Int('n')
            for i in ints:
                c.append(Cand('%s>=0'%(i,),[i],lambda u:u>=0)); c.append(Cand('%s<=n'%(i,),[i],lambda u:u<=N))
                for g in gs: c.append(Lin('%s=%s'%(g,i),g,i,lambda u:u)); c.append(Lin('%s=n-%s'%(g,i),g,i,lambda u:N-u))
            return c
        L=LoopProof(env,env.fn(fn),lambda:GrpDom(C),mk,tmpl)
        for o in L.run():
            res.paths+=1; note(res,o.ctx); d=o.ctx.dom
            if o.kind!='return': out.append(('no panic',True if not d.feasible() else None,o.msg)); continue
            if not isinstance(o.ret,GE): out.append(('result',None,repr(o.ret))); continue
            out.append(('n doublings',d.proves(d.z(padd(o.ret.k,{('n',):1},-1))==0) or (None if d.feasible() else True),repr(o.ret)))
            out.append(('operand unchanged',o.ctx.p.v.same(GE({})),''))
        res.vcs+=L.vcs
        return out
    return run
def curve_double_iter(p):
    return Ob(p,'double_iter, every iteration count',CV+'double_iter','int+loop invariants',double_loop(CV+'double_iter',{CV+'double_self':'self',CV+'double':'val',CV+'double_into':'into'},lambda ctx,n:[ctx.E,Ref(ctx.p),n]),search=['ec.double_iter'],fallback=True)
def theta_double_iter(p):
    T='thetaFESTA::ThetaStructure::'
    return Ob(p,'ThetaStructure::double_iter, every iteration count',T+'double_iter','int+loop invariants',double_loop(T+'double_iter',{T+'set_double_self':'self',T+'double_point':'val'},lambda ctx,n:[ctx.E,Ref(ctx.p),n]),search=['th.point'],fallback=True)
