"""Recovery of kernel scalars and of the masking matrix, over the contracts of the discrete logarithm, the modular inverse
and the CRT.  Points are integer combinations of a torsion basis P, Q; congruences modulo the prime powers M_i are
polynomial identities after the inverses have been cancelled."""
from prop_ph import *

class KeyDom(GrpDom):
    """divisibility of the known coefficients by the primes is a boolean unknown"""
    def bigdiv(self,ctx,op,x,y,unsigned):
        r=IntDom.bigdiv(self,ctx,op,x,y,unsigned)
        if op!='div':
            key=(tuple(pol(x).items()),tuple(pol(y).items()))
            b=ctx.divs.get(key)
            if b is not None: self.assume((self.z(r)==0)==b)
        return r
def kernel_obs(p):
    obs=[]
    def run(env,res,k,given):
        fn=env.fn(SS+'compute_canonical_kernel'); out=[]; ids=idents(env)
        def con():
            C=pair_contracts(lambda ctx:ctx.D)
            def bd(ctx,a):
                R,Pp,Qq,f,o=el(ctx,a[1]),el(ctx,a[2]),el(ctx,a[3]),flist(ctx,a[4]),a[5]
                if f!=ctx.f: raise Unproved('logarithm for another order')
                if Pp.k!={('P',):1} or Qq.k!={('Q',):1}: raise Unproved('logarithm in another basis')
                if isinstance(o,Enum) and o.fields:
                    e=el(ctx,o.fields[0])
                    if e.b!='w' or e.k!=pconst(1): raise Unproved('supplied pairing is not e(P,Q)')
                x,y=vec2(ctx,R); d=ctx.dom
                return (IV(x),IV(y))      # the coefficients of the argument are reduced
            C[DL+'bidlp']=bd
            C[SS+'torsion_basis']=lambda ctx,a: (GE({('P',):1}),GE({('Q',):1})) if flist(ctx,a[1])==ctx.f else (_ for _ in ()).throw(Unproved('basis for another order'))
            def xg(ctx,a):
                x,y=pol(ld(ctx,a[0])),pol(ld(ctx,a[1])); d=ctx.dom; s=d.fresh('inv')
                d.assume(z3.And(z3.Int(s)>=0,z3.Int(s)<d.z(y)))
                # coprime when the prime does not divide x
                for i,M in enumerate(ctx.M):
                    if y=={(M,):1} and len(x)==1:
                        b=ctx.divs.get((tuple(x.items()),(((('l%d'%i),),1),)))
                        if b is not None and d.proves(z3.Not(b)): ctx.inv[s]=(x,M)
                return IV({(s,):1})
            C[DL+'xgcd_big']=xg
            def crt(ctx,a):
                d=ctx.dom; rem=ld(ctx,a[0]).items
                if flist(ctx,a[1])!=ctx.f or len(rem)!=k: raise Unproved('CRT for another order')
                r=d.fresh('crt'); ctx.crt[r]=rem; d.assume(z3.Int(r)>=0); return IV({(r,):1})
            C[DL+'compute_crt']=crt
            return C
        def dom():
            d=KeyDom(con()); d.idents=ids; return d
        def args(ctx):
            d=ctx.dom; f=sym_factors(d,k); D=1; ctx.M=[]; ctx.inv={}; ctx.crt={}; ctx.divs={}
            for l,e in f:
                m=d.bigpow(ctx,l,e); ctx.M.append(next(iter(m.p))[0]); D=d.bigop(ctx,'mul',D,m)
            ctx.D=pol(D); ctx.f=f
            for v in('a1','b1','a2','b2'): d.var(v,lo=0)
            for i in range(k):
                B=[]
                for v in('a1','a2'):
                    b=z3.Bool('l%d divides %s'%(i,v)); B.append(b)
                    ctx.divs[(tuple({(v,):1}.items()),tuple({('l%d'%i,):1}.items()))]=b
                d.assume(z3.Not(z3.And(*B)))       # the images generate the subgroup
            basis=Some((GE({('P',):1}),GE({('Q',):1}))) if given else NONE
            return [Ref(Cell(Opaque('curve'))),Ref(Cell(GE({('P','a1'):1,('Q','b1'):1}))),Ref(Cell(GE({('P','a2'):1,('Q','b2'):1}))),Ref(Cell(f),(),(0,k)),basis]
        for o in explore(env.crate,dom,fn,args):
            res.paths+=1; note(res,o.ctx); d=o.ctx.dom; ctx=o.ctx
            if o.kind!='return': out.append(('no panic',True if not d.feasible() else None,o.msg)); continue
            s=pol(o.ret)
            out.append(('0 <= s < D',d.proves(z3.And(d.z(s)>=0,d.z(s)<d.z(ctx.D))) or None,''))
            for i in range(k):
                M=ctx.M[i]
                def red(g,i=i,M=M):
                    g={m:c for m,c in g.items() if M not in m}
                    for t,rem in ctx.crt.items(): g=subst(g,t,pol(rem[i]))
                    g={m:c for m,c in g.items() if M not in m}
                    for frm,to in((('a1','b2'),('a2','b1')),(('a2','b1'),('a1','b2'))):
                        h=g; ch=True
                        while ch:
                            ch=False; n={}
                            for m,c in h.items():
                                l=list(m)
                                for t,(x,M2) in ctx.inv.items():
                                    (v,)=next(iter(x))
                                    if M2==M and t in l and v in l: l.remove(t); l.remove(v); ch=True
                                if any(t in l for t in ctx.inv) and all(v in l for v in frm):
                                    for v in frm: l.remove(v)
                                    l+=list(to); ch=ch or False
                                    for t,(x,M2) in ctx.inv.items():
                                        (v,)=next(iter(x))
                                        if M2==M and t in l and v in l: l.remove(t); l.remove(v); ch=True
                                n=padd(n,{tuple(sorted(l)):c})
                            h=n
                        if not h: return h
                    return h
                for j in('1','2'):
                    g=red(padd(pmul(s,{('a'+j,):1}),{('b'+j,):1},-1))
                    out.append(('s*a%s = b%s modulo l%d^e%d'%(j,j,i,i),True if not g else None,repr(IV(g))))
        return out
    for given in(1,0):
        for k in range(1,6):
            obs.append(Ob(p,'compute_canonical_kernel, %d primes%s'%(k,'' if given else ', generated basis'),SS+'compute_canonical_kernel','int',lambda env,res,k=k,given=given:run(env,res,k,given),search=['ss.kernel'],bound='%d prime factors (all primes, exponents, coefficients)'%k,fallback=True,weight=k,tier='quick' if k<5 else 'thorough'))
    return obs

def diag_obs(p):
    def run(env,res):
        fn=env.fn('festa::FESTACrypto::recover_diagB'); out=[]; ids=idents(env)
        even=const(env,'L_POWER'); L=1<<even; flds=['E0','l_power','d1','d2','d1d2','inv_scalar','clear_d1','clear_d2','clear_lb','g2','E0_lb_basis','E0_d1_basis']
        def con():
            C=grp_contracts()
            def bd(ctx,a):
                R,Pp,Qq,f=el(ctx,a[1]),el(ctx,a[2]),el(ctx,a[3]),flist(ctx,a[4])
                if f!=((2,even),): raise Unproved('logarithm for another order')
                if Pp.k!={('P',):1} or Qq.k!={('Q',):1}: raise Unproved('logarithm in another basis')
                d=ctx.dom; x,y=vec2(ctx,R); return (IV(x),IV(y))
            C[DL+'bidlp']=bd
            def xg(ctx,a):
                x,y=pol(ld(ctx,a[0])),pol(ld(ctx,a[1])); d=ctx.dom
                if y!=pconst(L): raise Unproved('inverse modulo another number')
                s=d.fresh('inv'); d.assume(z3.And(z3.Int(s)>=0,z3.Int(s)<L)); ctx.inv.append((s,x)); return IV({(s,):1})
            C[DL+'xgcd_big']=xg
            return C
        def dom():
            d=GrpDom(con()); d.idents=ids; return d
        def args(ctx):
            d=ctx.dom; ctx.inv=[]
            d.var('a',lo=0,hi=L); d.var('b',lo=0,hi=L); d.var('inv_scalar',lo=0,hi=L)
            fo=env.crate.field_order('festa::FESTACrypto') or flds
            if 'l_power' not in fo or 'inv_scalar' not in fo: raise Unsupported('fields of FESTACrypto')
            vals=[Opaque(f) for f in fo]; vals[fo.index('l_power')]=L; vals[fo.index('inv_scalar')]=IV({('inv_scalar',):1})
            return [Ref(Cell(tuple(vals))),Ref(Cell(Opaque('curve'))),Ref(Cell(GE({('P','a'):1,('Q','b'):1}))),Ref(Cell(GE({('P',):1}))),Ref(Cell(GE({('Q',):1})))]
        for o in explore(env.crate,dom,fn,args):
            res.paths+=1; note(res,o.ctx); d=o.ctx.dom; ctx=o.ctx
            if o.kind!='return': out.append(('no panic',True if not d.feasible() else None,o.msg)); continue
            al,be=map(pol,o.ret); modL=lambda p:{m:c%L for m,c in p.items() if c%L}
            # alpha = sigma*inv_scalar*a and beta = tau/(rho*inv_scalar*a) with tau*rho = sigma, modulo L
            def sgn(q,m):
                q=modL(q)
                return 1 if q==modL({m:1}) else -1 if q==modL({m:-1}) else None
            sg=sgn(al,('a','inv_scalar'))
            out.append(('first entry is inv_scalar*a mod 2^n up to sign',True if sg else None,repr(o.ret[0])[:120]))
            ok=None
            for s,y in ctx.inv:
                rho,tau=sgn(y,('a','inv_scalar')),sgn(be,(s,))
                if sg and rho and tau: ok=True if rho*tau==sg else False if ok is None else ok
            out.append(('second entry is the inverse of the first modulo 2^n',ok,repr((o.ret[1],ctx.inv))[:160]))
            A,B=d.z(al),d.z(be)
            out.append(('first entry is the representative at most 2^(n-1)',d.proves(z3.And(A>=0,A<=L//2)) or None,repr(o.ret[0])[:120]))
            out.append(('second entry is in 0..2^n',d.proves(z3.And(B>=0,B<=L)) or None,repr(o.ret[1])[:120]))
        return out
    return [Ob(p,'recover_diagB','festa::FESTACrypto::recover_diagB','int',run,search=['fe.diagb'],fallback=True)]
def c20(crate):
    return kernel_obs('C20')+diag_obs('C20')
