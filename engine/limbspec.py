"""Specifications of functions on Fp limbs and the procedure that discharges them."""
import itertools
from limb import *

def fp_input(dom,name):
    """an arbitrary canonical element: limbs a_0..a_20 with value V = sum a_i 2^64i in [0,p-1]"""
    n=dom.nl; p=dom.p
    V=dom.atom(0,p-1,name)
    limbs=[None]*n
    rest={}
    for i in range(1,n):
        a=dom.atom(0,min((1<<64)-1,p>>(64*i)),f'{name}_{i}')
        limbs[i]=SymInt({(a.id,):1},a.lo,a.hi)
        rest[(a.id,)]=-(1<<(64*i))
    d=dict(rest); d[(V.id,)]=1
    a0=dom.atom(0,(1<<64)-1,f'{name}_0',d)
    limbs[0]=SymInt({(a0.id,):1},0,(1<<64)-1)
    sm=pscale(rest,-1); sm[(a0.id,)]=1
    dom.inputs.append((V.id,sm))
    return tuple(limbs),{(V.id,):1}

def limbs_value(dom,limbs):
    r={}
    for i,l in enumerate(limbs): r=padd(r,pscale(dom.poly(l),1<<(64*i)))
    return r

def limb_ranges_ok(dom,limbs):
    for l in limbs:
        lo,hi=dom.rng(l)
        if lo<0 or hi>=1<<64: return False
    return True

def h_iszero(ctx,a):
    """contract of Fp::iszero (decided by C03): all-ones iff the value is 0; the two cases are explored separately"""
    d=ctx.dom; w=ctx.load(a[0]) if isinstance(a[0],Ref) else a[0]
    w=w[0]
    for vid,S in d.inputs:
        ids=[]
        for x in w:
            if not isinstance(x,SymInt) or len(x.poly)!=1: break
            (m,c),=x.poly.items()
            if c!=1 or len(m)!=1: break
            ids.append(m)
        if len(ids)!=d.nl or any(S.get(m)!=1<<(64*i) for i,m in enumerate(ids)): continue
        v=d.atoms[vid]
        if v.lo>0: return 0
        if v.hi==0: return 0xFFFFFFFF
        if ctx.decide(2,'iszero')==0:
            d.fix(vid,0)
            for m in ids: d.fix(m[0],0)
            return 0xFFFFFFFF
        v.lo=1; return 0
    return NotImplemented

class Case:
    """temporarily fix some atoms"""
    def __init__(self,dom,asg): self.dom=dom; self.asg=asg
    def __enter__(self):
        self.save=[]
        for i,v in self.asg.items():
            a=self.dom.atoms[i]; self.save.append((a,a.lo,a.hi,a.fixed))
            a.lo=a.hi=v; a.fixed=v
        return self
    def __exit__(self,*e):
        for a,l,h,f in self.save: a.lo,a.hi,a.fixed=l,h,f

def propagate(dom,saved):
    """interval propagation through the carry definitions d = T + hc*c under the current case;
    returns False when the case is contradictory"""
    at=dom.atoms
    for a in at:
        if a.partner is None: continue
        d=at[a.partner]
        if d.defn is None: continue
        D=dom.subst_fixed(d.defn)
        if a.fixed is None:
            hc=D.get((a.id,))
            if not hc or any(a.id in m and m!=(a.id,) for m in D): continue
            T=dict(D); T.pop((a.id,))
            tl,th=dom.interval(T)
            n1,n2=d.lo-th,d.hi-tl          # hc*c in [n1,n2]
            lo,hi=((-((-n1)//hc),n2//hc) if hc>0 else (-(n2//-hc),(-n1)//-hc))
            lo=max(lo,a.lo); hi=min(hi,a.hi)
            if lo>hi: return False
            if lo!=a.lo or hi!=a.hi:
                saved.append((a,a.lo,a.hi,a.fixed)); a.lo,a.hi=lo,hi
                if lo==hi: a.fixed=lo
        D=dom.subst_fixed(d.defn)
        tl,th=dom.interval(D)
        lo=max(tl,d.lo); hi=min(th,d.hi)
        if lo>hi: return False
        if d.fixed is None and (lo!=d.lo or hi!=d.hi):
            saved.append((d,d.lo,d.hi,d.fixed)); d.lo,d.hi=lo,hi
    return True

def infeasible(dom,P,lemmas=()):
    try: return dom.lp(padd({():0},{}),None,-1,[(P,None,None)]+list(lemmas))
    except Unsupported: return False

def frontier_lemmas(dom,V,mult,target,p):
    """find intermediate 21-limb values F met while unfolding V for which
    mult*F - target is a multiple of p, and bound them"""
    found=[]
    n=dom.nl
    want={1<<(64*i) for i in range(n)}
    seen=set()
    def stop(P):
        if len(found)>=3 or len(P)>3*n: return
        cs={}
        for m,c in P.items():
            if len(m)==1:
                cs.setdefault(abs(c),[]).append(m)
        if not want<=set(cs): return
        F={}
        for i in range(n):
            l=cs[1<<(64*i)]
            if len(l)!=1: return
            F[l[0]]=1<<(64*i)
        k=tuple(sorted(F))
        if k in seen: return
        seen.add(k); found.append(F)
    try: dom.expand(V,stop=stop)
    except Unsupported: return []
    if all(len(m)==1 for m in V) : stop(V)
    out=[]
    for F in found:
        r=bound_congruent(dom,F,mult,target,p)
        if r: out.append((F,r[0],r[1]))
    return out

def bound_congruent(dom,F,mult,target,p):
    """mult*F = target + p*K exactly, K bounded => bounds on F"""
    D=dom.expand(padd(pscale(F,mult),target,-1))
    if any(c%p for c in D.values()): return None
    K={m:c//p for m,c in D.items()}
    kl,kh=dom.bound(K)
    tl,th=dom.interval(target)
    lo=-((-(tl+p*kl))//mult); hi=(th+p*kh)//mult
    return lo,hi

def use_fixed_defs(dom,res,p):
    """a fixed atom d=v with definition d = T-2^k*h gives T-2^k*h = v: eliminate h (mod p)"""
    at=dom.atoms
    fx={}
    for a in at:
        if a.partner is not None and a.fixed is None and at[a.partner].fixed is not None:
            d=at[a.partner]
            D=dom.subst_fixed(d.defn)
            hc=D.get((a.id,))
            if hc is not None and hc%p and not any(a.id in m and m!=(a.id,) for m in D): fx[a.id]=(D,d.fixed,hc)
    for h in sorted(fx,reverse=True):
        D,v,hc=fx[h]
        c=res.get((h,))
        if c is None: continue
        k=-c*pow(hc,-1,p)%p
        res=padd(res,pscale(padd(D,pconst(-v)),k))
        res=dom.expand(res)
        res={m:c%p for m,c in res.items() if c%p}
    return res

def pin_residual(dom,res,p,lemmas):
    """res (mod p) must vanish: pin remaining boolean atoms by linear arithmetic"""
    for _ in range(40):
        res={m:c%p for m,c in dom.subst_fixed(res).items() if c%p}
        if res: res=use_fixed_defs(dom,res,p)
        if not res: return True,{}
        yielded=False
        for m in sorted(res):
            if not m: continue
            for i in m:
                a=dom.atoms[i]
                if a.fixed is None and a.hi-a.lo<=2:
                    for v in range(a.lo,a.hi+1):
                        if (v==a.lo or dom.prove_range({(i,):1},v,None,lemmas)) and (v==a.hi or dom.prove_range({(i,):1},None,v,lemmas)):

                            return None,{i:v}
        return False,res
    return False,res

def check_mod(dom,V,mult,target,p,lo=0,hi=None,want_range=True,extra_mask=()):
    """prove  mult*V == target (mod p)  and  lo<=V<=hi  in every case.
    returns (ok, message, ncases)"""
    if hi is None: hi=p-1
    masks=[a.id for a in dom.atoms if a.mask and a.fixed is None and a.lo==0 and a.hi==1]
    base=dom.expand(V,usemod=False)
    used=set()
    for m in list(base)+list(V):
        used.update(m)
    # masks reachable from V
    reach=set(); stack=list({i for m in V for i in m})
    while stack:
        i=stack.pop()
        if i in reach: continue
        reach.add(i)
        a=dom.atoms[i]
        if a.defn:
            for m in a.defn: stack.extend(m)
    masks=[i for i in masks if i in reach]
    if len(masks)>10: return None,'too many mask bits',0
    ncase=0
    def rec(asg,rest):
        nonlocal ncase
        if rest:
            i=rest[0]
            for v in(0,1):
                r=rec({**asg,i:v},rest[1:])
                if r is not None: return r
            return None
        ncase+=1
        extra={}
        with Case(dom,asg):
            # quick infeasibility: contradicting defs found by LP below
            saved=[]
            try:
                if not propagate(dom,saved): return None
                lem=frontier_lemmas(dom,V,mult,target,p)
                res0=dom.expand(padd(pscale(V,mult),target,-1),usemod=True)
                while True:
                    st,x=pin_residual(dom,res0,p,lem)
                    if st is None:
                        for i,v in x.items():
                            a=dom.atoms[i]; saved.append((a,a.lo,a.hi,a.fixed)); a.lo=a.hi=v; a.fixed=v
                        if not propagate(dom,saved): return None
                        continue
                    break
                if st is False:
                    if infeasible(dom,V,lem): return None
                    return 'congruence not established (case %s): residual %d terms'%(sorted(asg.values()),len(x))
                if want_range:
                    b=None
                    try: b=bound_congruent(dom,V,mult,target,p)
                    except Unsupported: pass
                    if b is None or b[0]<lo or b[1]>hi:
                        if not dom.prove_range(V,lo,hi,lem):
                            if infeasible(dom,V,lem): return None
                            return 'range [%s,%s] not established (case %s)'%('0' if lo==0 else lo,'p-1' if hi==p-1 else hex(hi)[:12],sorted(asg.items()))
            finally:
                for a,l,h,f in reversed(saved): a.lo,a.hi,a.fixed=l,h,f
        return None
    msg=rec({},masks)
    return (msg is None),msg,ncase

def quotient_lemmas(dom,divisor,maxq=1<<33,window=12):
    """for a word x that was multiplied by a large constant, look for the later word q with
    0 <= x - divisor*q <= divisor-1 (division by multiplication with the inverse); each such fact is proved
    by linear arithmetic over the definitions before it is used"""
    n=0
    propagate(dom,[])
    for x,at0 in dom.dividends:
        for a in dom.atoms[at0:at0+window]:
            if a.partner is not None and a.fixed is None and a.hi-a.lo==1:
                for v in(a.lo,a.hi):
                    if dom.prove_range({(a.id,):1},v if v!=a.lo else None,v if v!=a.hi else None): dom.fix(a.id,v); break
            if a.partner is None or a.fixed is not None or a.hi>maxq: continue
            r={(x,):1,(a.id,):-divisor}
            if dom.prove_range(r,0,divisor-1):
                dom.facts.append((r,0,divisor-1)); n+=1
    return n
