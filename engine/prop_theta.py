"""Level-2 theta structures in dimension two: Hadamard transform, doubling, (2,2)-isogenies, gluing, splitting and the
isogeny chain, over the contracts of the extension field.  Points are projective: results are compared up to a non-zero
factor.  A point with prescribed dual coordinates (S(P))_i = s_i is represented by coordinates that are square roots of
H(s)/4, so that the code's own squarings and sums reproduce s exactly."""
from prop_ec import *
from prop_grp import const
import itertools
TH='thetaFESTA::'; TS=TH+'ThetaStructure::'; TP=TH+'ThetaPoint::'
def H(d,v):
    a,b,c,e=v; s=lambda x,y,z,t,q: d.add(d.add(a,d.scale(b,q[0])),d.add(d.scale(c,q[1]),d.scale(e,q[2])))
    return [s(*v,q) for q in((1,1,1),(-1,1,-1),(1,-1,-1),(-1,-1,1))]
def sq(d,v): return [d.mul(x,x) for x in v]
def S(d,v): return H(d,sq(d,v))
def vars4(d,n,nz=False): return [d.var(n+str(i),nonzero=nz) for i in range(4)]
def with_dual(d,n,s):
    """coordinates whose squared theta transform is s"""
    q=pow(4,-1,P); return [d.var('%s%d'%(n,i),root_of=d.scale(h,q).n) for i,h in enumerate(H(d,s))]
def ratio(d,u,v):
    """is u = lambda v with lambda known to be non-zero?"""
    R=d.R; a,b=d.norm(R.mul(u.n,v.d)),d.norm(R.mul(u.d,v.n))
    if not a or not b: return False
    for x,y in((a,b),(b,a)):
        q=R.divides(x,y)
        if q is not None and R.mul(q,y)==x and d.known(q)[0]==1: return True
    sx,sy=d.strip(a),d.strip(b)
    q=R.divides(sx,sy)
    return q is not None and len(q)==1 and () in q
def proj(d,lab,got,want):
    """got ~ want as projective points"""
    got=[d.fe(x) for x in got]; n=len(want)
    for i in range(n):
        for j in range(i): yield '%s: coordinates %d,%d'%(lab,j,i),d.equal(d.mul(got[i],want[j]),d.mul(got[j],want[i]))
    yield lab+': not all zero',any(ratio(d,got[i],want[i]) for i in range(n) if d.norm(want[i].n)) or None
def distinct(d,*polys):
    for f in polys: d.assume_nz(f.n)
def null_ok(ctx,lab,st,want):
    """structure with null point ~ want and its precomputation"""
    d=ctx.dom; o,pre=st; o=[d.fe(x) for x in o]; pre=[d.fe(x) for x in pre]
    yield from proj(d,lab+' null point',o,want)
    s=S(d,o)
    for k,(q,x,y) in enumerate([('a/%s'%n,o[0],o[i]) for i,n in((1,'b'),(2,'c'),(3,'d'))]+[('A/%s'%n,s[0],s[i]) for i,n in((1,'B'),(2,'C'),(3,'D'))]):
        z=d.known(d.norm(y.n))[0]
        if z==0: continue
        yield lab+' constant '+q,d.equal(d.mul(pre[k],y),x)
def structure(d,a,s):
    """ThetaStructure value with null point a (all non-zero) whose S(a) is s"""
    return (tuple(a),tuple(d.mul(a[0],d.inv(a[i])) for i in(1,2,3))+tuple(d.mul(s[0],d.inv(s[i])) for i in(1,2,3)))
def pt_cells(ctx,pts):
    c=Cell(tuple(tuple(p) for p in pts)); return c,Ref(c,(),(0,len(pts)))
def vecpts(v):
    v=v.v if isinstance(v,Cell) else v
    return v.items if isinstance(v,VecVal) else v

def c15(crate):
    obs=[]; p='C15'; SE=['th.small','th.chain']
    fo=crate.field_order(TH+'ThetaPoint'); so=crate.field_order(TH+'ThetaStructure')
    if (fo and fo!=['X','Y','Z','T']) or (so and so!=['null_point','arithmetic_precom']): pass
    def ob(label,fn,cases,mk,post,w=2,more=None,bound=None,search=SE,fb=False): obs.append(Ob(p,label,fn,'field',ec_run(fn,cases,mk,post,more),search=search,weight=w,bound=bound,fallback=fb))
    R=lambda v:Ref(Cell(v))
    # ------------------------------------------------ transforms
    def mk(ctx,f,case):
        ctx.x=vars4(ctx.dom,'x'); return [R(v) for v in ctx.x]
    def post(ctx,r,case):
        d=ctx.dom; w=case(d,ctx.x)
        for i in range(4): yield 'coordinate %d'%i,d.equal(d.fe(r[i]),w[i])
    ob('to_hadamard',TH+'to_hadamard',[('',H)],mk,post,search=['th.point'])
    ob('to_squared_theta',TH+'to_squared_theta',[('',S)],mk,post,search=['th.point'])
    def mk(ctx,f,case):
        ctx.x=vars4(ctx.dom,'x'); return [tuple(ctx.x)]
    for n,g in(('hadamard',H),('squared_theta',S),('coords',lambda d,v:v),('list',lambda d,v:v)): ob('ThetaPoint::'+n,TP+n,[('',g)],mk,post,search=['th.point'])
    def lemma(env,res):
        d=Field(P,'fp2',C2()); x=vars4(d,'x'); h=H(d,H(d,x)); y=with_dual(d,'y',x); s=S(d,y)
        return [('H(H(x)) = 4x',all(d.equal(u,d.scale(v,4)) for u,v in zip(h,x)),''),('S(P) of a point with given dual coordinates',all(d.equal(u,v) for u,v in zip(s,x)),'')]
    obs.append(Ob(p,'lemma: the transform is an involution up to four','','field',lemma))
    # ------------------------------------------------ structures
    def null(d,zero=()):
        a=vars4(d,'a',True)
        for f in S(d,a): d.assume_nz(f.n)
        return a
    for n in('precomputation','new_from_point','new_from_coords'):
        def mk(ctx,f,case):
            ctx.a=null(ctx.dom); return [R(v) for v in ctx.a] if len(f.args)==4 else [R(tuple(ctx.a))]
        def post(ctx,r,case,n=n):
            yield from null_ok(ctx,'structure',(ctx.a,r) if n=='precomputation' else r,ctx.a)
        ob('ThetaStructure::'+n,TS+n,[('',None)],mk,post,search=['th.point'])
    def dblspec(d,a,x):
        A=S(d,a); t=[d.mul(u,d.inv(v)) for u,v in zip(sq(d,S(d,x)),A)]
        return [d.mul(u,d.inv(v)) for u,v in zip(H(d,t),a)]
    def mk(ctx,f,case):
        d=ctx.dom; ctx.a=null(d); ctx.x=vars4(d,'x'); st=structure(d,ctx.a,S(d,ctx.a)); ctx.c=Cell(tuple(ctx.x))
        return [st,Ref(ctx.c)]+([case] if len(f.args)>2 else [])
    def post(ctx,r,case):
        d=ctx.dom; w=ctx.x
        for i in range(1 if case is None else case): w=dblspec(d,ctx.a,w)
        yield from proj(d,'double',ctx.c.v if r==() else r,w)
        if r!=(): yield 'operand unchanged',all(u is v for u,v in zip(ctx.c.v,ctx.x))
    ob('ThetaStructure::set_double_self',TS+'set_double_self',[('',None)],mk,post,search=['th.point'],w=4)
    ob('ThetaStructure::double_point',TS+'double_point',[('',None)],mk,post,search=['th.point'],w=4)
    # ------------------------------------------------ (2,2)-isogenies
    for h1 in(False,True):
        for k in range(0,4):
            def mk(ctx,f,case,h1=h1,k=k):
                d=ctx.dom; A=vars4(d,'A',True); x,y,z,t=[d.var(n,nonzero=True) for n in 'xyzt']; ctx.A=A; m=d.mul
                T1=with_dual(d,'P',[m(x,A[0]),m(x,A[1]),m(y,A[2]),m(y,A[3])]); T2=with_dual(d,'Q',[m(z,A[0]),m(t,A[1]),m(z,A[2]),m(t,A[3])])
                lam=d.var('l',nonzero=True); s=[m(lam,u) for u in sq(d,A)]; a=with_dual(d,'a',s)
                for v in a: d.assume_nz(v.n)
                ctx.cod=H(d,A) if h1 else A
                for u in ctx.cod+S(d,ctx.cod): d.assume_nz(u.n)
                ctx.pts=[vars4(d,'U%d'%j) for j in range(k)]; ctx.c,r=pt_cells(ctx,ctx.pts)
                return [R(structure(d,a,s)),R(tuple(T1)),R(tuple(T2)),r,(False,h1)]
            def post(ctx,r,case,h1=h1,k=k):
                d=ctx.dom; yield from null_ok(ctx,'codomain',r,ctx.cod)
                for j in range(k):
                    w=[d.mul(u,d.inv(v)) for u,v in zip(S(d,ctx.pts[j]),ctx.A)]
                    yield from proj(d,'image %d'%j,ctx.c.v[j],H(d,w) if h1 else w)
            ob('two_isogeny%s, %d points'%(', transformed codomain' if h1 else '',k),TH+'two_isogeny',[('',None)],mk,post,w=5,bound='%d points'%k if k>1 else None)
    for k in range(0,4):
        def mk(ctx,f,case,k=k):
            d=ctx.dom; A=vars4(d,'A',True); x,y,z,t=[d.var(n,nonzero=True) for n in 'xyzt']; ctx.A=A; m=d.mul; q=pow(4,-1,P)
            T1=H(d,with_dual(d,'P',[m(x,A[0]),m(x,A[1]),m(y,A[2]),m(y,A[3])])); T2=H(d,with_dual(d,'Q',[m(z,A[0]),m(t,A[1]),m(z,A[2]),m(t,A[3])]))
            for u in S(d,A): d.assume_nz(u.n)
            ctx.pts=[vars4(d,'U%d'%j) for j in range(k)]; ctx.c,r=pt_cells(ctx,ctx.pts)
            return [R(tuple(T1)),R(tuple(T2)),r]
        def post(ctx,r,case,k=k):
            d=ctx.dom; yield from null_ok(ctx,'codomain',r,ctx.A)
            for j in range(k): yield from proj(d,'image %d'%j,ctx.c.v[j],[d.mul(u,d.inv(v)) for u,v in zip(S(d,H(d,ctx.pts[j])),ctx.A)])
        ob('two_isogeny_to_product, %d points'%k,TH+'two_isogeny_to_product',[('',None)],mk,post,w=5,bound='%d points'%k if k>1 else None)
    # ------------------------------------------------ gluing
    def nullA(d,i):
        A=vars4(d,'A',True); A[i]=d.const(0); return A
    def mk(ctx,f,i):
        d=ctx.dom; A=nullA(d,i); x,y,z,t=[d.var(n,nonzero=True) for n in 'xyzt']; ctx.A=A; m=d.mul
        ctx.cod=H(d,A)
        for u in ctx.cod: d.assume_nz(u.n)
        return [R(tuple(with_dual(d,'P',[m(x,A[0]),m(x,A[1]),m(y,A[2]),m(y,A[3])]))),R(tuple(with_dual(d,'Q',[m(z,A[0]),m(t,A[1]),m(z,A[2]),m(t,A[3])])))]
    def post(ctx,r,i):
        d=ctx.dom; st,(ai,bi),z=r; A=ctx.A
        yield from null_ok(ctx,'codomain',st,ctx.cod)
        yield 'index of the vanishing coordinate',z==i
        yield 'first inverse',d.equal(d.mul(d.fe(ai),A[1^i]),A[3^i]); yield 'second inverse',d.equal(d.mul(d.fe(bi),A[2^i]),A[3^i])
    ob('gluing_codomain',TH+'gluing_codomain',[('coordinate %d vanishes'%i,i) for i in range(4)],mk,post,w=5)
    def mk(ctx,f,case):
        i,zz=case; d=ctx.dom; A=nullA(d,i); m=d.mul; w=vars4(d,'w'); ctx.w=w
        if zz: w[2^i]=d.const(0); d.assume_nz(w[3^i].n)
        else: d.assume_nz(w[2^i].n)
        l=d.var('l',nonzero=True)
        T=with_dual(d,'T',[m(A[j],w[j]) for j in range(4)]); U=with_dual(d,'U',[m(l,m(A[j],w[j^1])) for j in range(4)])
        return [R(tuple(T)),R(tuple(U)),R(m(A[3^i],d.inv(A[1^i]))),R(m(A[3^i],d.inv(A[2^i]))),i]
    def post(ctx,r,case): yield from proj(ctx.dom,'image',r,H(ctx.dom,ctx.w))
    ob('gluing_image',TH+'gluing_image',[('coordinate %d vanishes%s'%(i,', third coordinate of the image zero' if z else ''),(i,z)) for i in range(4) for z in(0,1)],mk,post,w=5)
    # the scaling between the two points cannot be found when z = t = 0 (known finding)
    def mk(ctx,f,i):
        d=ctx.dom; A=nullA(d,i); m=d.mul; w=vars4(d,'w'); ctx.w=w; w[2^i]=w[3^i]=d.const(0); d.assume_nz(w[i].n); d.assume_nz(w[1^i].n); l=d.var('l',nonzero=True)
        T=with_dual(d,'T',[m(A[j],w[j]) for j in range(4)]); U=with_dual(d,'U',[m(l,m(A[j],w[j^1])) for j in range(4)])
        return [R(tuple(T)),R(tuple(U)),R(m(A[3^i],d.inv(A[1^i]))),R(m(A[3^i],d.inv(A[2^i]))),i]
    ob('gluing_image, third and fourth coordinate of the image zero',TH+'gluing_image',[('coordinate %d vanishes'%i,i) for i in range(4)],mk,post,w=5,search=[])
    # base change
    def mk(ctx,f,case):
        d=ctx.dom; ctx.M=[d.var('m%d'%i) for i in range(16)]; ctx.x=vars4(d,'x'); ctx.c=Cell(tuple(ctx.x)); return [Ref(ctx.c),tuple(ctx.M)]
    def lin(d,M,x): return [d.add(d.add(d.mul(M[4*i],x[0]),d.mul(M[4*i+1],x[1])),d.add(d.mul(M[4*i+2],x[2]),d.mul(M[4*i+3],x[3]))) for i in range(4)]
    def post(ctx,r,case):
        d=ctx.dom; w=lin(d,ctx.M,ctx.x)
        for i in range(4): yield 'row %d'%i,d.equal(d.fe(ctx.c.v[i]),w[i])
    ob('apply_base_change',TH+'apply_base_change',[('',None)],mk,post)
    def mk(ctx,f,case):
        d=ctx.dom; ctx.M=[d.var('m%d'%i) for i in range(16)]; reps=[]; ctx.xz=[]
        for n,k in zip('12',case):
            if k=='O': reps.append((d.const(0),d.var('Y'+n,nonzero=True),d.const(0))); ctx.xz.append((d.const(1),d.const(0)))
            else:
                x,z=d.var('x'+n),d.var('z'+n,nonzero=True); reps.append((d.mul(x,z),d.var('Y'+n),z)); ctx.xz.append((x,d.const(1)))
        return [R(tuple(reps)),tuple(ctx.M)]
    def post(ctx,r,case):
        d=ctx.dom; (a,b),(c,e)=ctx.xz; yield from proj(d,'theta point',r,lin(d,ctx.M,[d.mul(a,c),d.mul(a,e),d.mul(b,c),d.mul(b,e)]))
    ob('base_change_couple_point',TH+'base_change_couple_point',[('%s x %s'%(a,b),(a,b)) for a in 'PO' for b in 'PO'],mk,post)
    # translation by a point of order two, normalised by the point of order four above it
    def mk(ctx,f,case):
        d=ctx.dom; z=d.var('z',nonzero=True); one_=d.const(1)
        if case==0:      # 2T = (al,0), x(T) = x
            x=d.var('x',nonzero=True); x2=d.mul(x,x); distinct(d,d.add(x2,one_),d.sub(x2,one_),d.sub(x,one_),d.add(x,one_))
            al=d.mul(d.add(x2,one_),d.inv(d.scale(x,2))); A=d.neg(d.mul(d.add(d.mul(al,al),one_),d.inv(al)))
        else: x=d.const(case); al=d.const(0); A=d.var('A'); distinct(d,d.sub(A,d.const(2)),d.add(A,d.const(2)))
        ctx.x,ctx.al=x,al
        return [R(curve(d,A)),R((d.mul(x,z),d.var('Y'),z))]
    def post(ctx,r,case):
        d=ctx.dom; den=d.inv(d.sub(ctx.x,ctx.al)); w=[d.neg(d.mul(ctx.al,den)),d.neg(den),den if case==0 else d.neg(den),d.mul(ctx.al,den)]
        for i in range(4): yield 'entry %d'%i,d.equal(d.fe(r[i]),w[i])
    ob('get_base_submatrix',TH+'get_base_submatrix',[('2T <> (0,0)',0),('2T = (0,0), x = 1',1),('2T = (0,0), x = -1',-1)],mk,post,w=4)
    GB={}
    def gb(ctx,a):
        ld=lambda v: ctx.load(v) if isinstance(v,Ref) else v
        E,T=ld(a[0]),ld(a[1]); k=ctx.sub.get((id(E),id(T)))
        if k is None:
            k=[v for (e,t),v in ctx.sub.items() if t==id(T)]
            raise Unproved('point of the other curve')
        return tuple(k)
    GB[TH+'get_base_submatrix']=gb
    def mk(ctx,f,case):
        d=ctx.dom; E=[curve(d,d.var('A1')),curve(d,d.var('A2'))]; m={}; ctx.sub={}; pts={}
        for n in('g1','g2','h1','h2'):
            pt=(d.var(n+'X'),d.var(n+'Y'),d.var(n+'Z')); pts[n]=pt; m[n]=[d.var(n+c) for c in 'abcd']; ctx.sub[(id(E[int(n[1])-1]),id(pt))]=m[n]
        ctx.m=m; ctx.keep=(E,pts)
        return [R((E[0],E[1])),R((pts['g1'],pts['g2'])),R((pts['h1'],pts['h2']))]
    def post(ctx,r,case):
        d=ctx.dom; m=ctx.m; ad,ml=d.add,d.mul
        def mm(a,b): return [ad(ml(a[0],b[0]),ml(a[1],b[2])),ad(ml(a[0],b[1]),ml(a[1],b[3])),ad(ml(a[2],b[0]),ml(a[3],b[2])),ad(ml(a[2],b[1]),ml(a[3],b[3]))]
        I=[d.const(1),d.const(0),d.const(0),d.const(1)]
        def ten(a,b,v):      # (a (x) b) v, v indexed 2*i+j
            return [ad(ad(ml(ml(a[2*(i//2)],b[2*(i%2)]),v[0]),ml(ml(a[2*(i//2)],b[2*(i%2)+1]),v[1])),ad(ml(ml(a[2*(i//2)+1],b[2*(i%2)]),v[2]),ml(ml(a[2*(i//2)+1],b[2*(i%2)+1]),v[3]))) for i in range(4)]
        e=[d.const(1)]+[d.const(0)]*3; v=[d.const(0)]*4
        for a,b in((I,I),(m['g1'],m['g2']),(m['h1'],m['h2']),(mm(m['g1'],m['h1']),mm(m['g2'],m['h2']))): v=[ad(x,y) for x,y in zip(v,ten(a,b,e))]
        rows=[v,ten(I,m['h2'],v),ten(m['g1'],I,v),ten(m['g1'],m['h2'],v)]
        for i in range(4):
            for j in range(4): yield 'entry %d,%d'%(i,j),d.equal(d.fe(r[4*i+j]),rows[i][j])
    ob('get_base_matrix',TH+'get_base_matrix',[('',None)],mk,post,w=4,more=GB,fb=True)
    obs+=split_obs(p,ob,R,lin)
    chain_obs(p,obs,SE)
    import prop_loop; obs.append(prop_loop.theta_double_iter(p))
    return obs
EVEN=[(0,0),(0,1),(0,2),(0,3),(1,0),(1,2),(2,0),(2,1),(3,0),(3,3)]
def chi(x,t): return -1 if bin(x&t).count('1')&1 else 1
def U(d,a,x,i):
    s=d.const(0)
    for t in range(4): s=d.add(s,d.scale(d.mul(a[t],a[t^i]),chi(x,t)))
    return s
def with_zero(d,ch,i):
    """a null point whose constant (ch,i) vanishes and the others do not"""
    if i==0:
        b=vars4(d,'a'); n=d.scale(d.add(d.add(d.scale(d.mul(b[1],b[1]),chi(ch,1)),d.scale(d.mul(b[2],b[2]),chi(ch,2))),d.scale(d.mul(b[3],b[3]),chi(ch,3))),-1)
        d.R.sq[max(d.R.vars(b[0].n))]=n.n; a=b
    else:
        # sum over the pairs {t,t^i}: a0 a_i + s a_u a_(u^i) = 0
        u=next(t for t in(1,2,3) if t!=i); s=chi(ch,u); a=vars4(d,'a')
        a[i]=d.var('a%d'%i); g=d.var('g',nonzero=True); h=d.var('h')
        # all solutions with a_i and a_u not both zero: a_i = g e, a_u = h e ... parametrised by a0 = -s h k, a_i = g l, a_u = g k, a_(u^i) = h l
        k,l=d.var('k',nonzero=True),d.var('l',nonzero=True); d.assume_nz(h.n)
        a=[None]*4; a[0]=d.scale(d.mul(h,k),-s); a[i]=d.mul(g,l); a[u]=d.mul(g,k); a[u^i]=d.mul(h,l)
    for c2,i2 in EVEN:
        v=U(d,a,c2,i2)
        if (c2,i2)==(ch,i): assert not d.norm(v.n)
        else: d.assume_nz(v.n)
    return a
def split_obs(p,ob,R,lin):
    obs=[]
    # ------------------------------------------------ constants and the splitting matrix
    def mk(ctx,f,case): return [R(case[0]),R(case[1])]
    def post(ctx,r,case): yield 'sign',r==(0xFFFFFFFF if chi(*case)<0 else 0)
    ob('chi_eval',TH+'chi_eval',[('%d,%d'%(x,y),(x,y)) for x in range(4) for y in range(4)],mk,post)
    def mk(ctx,f,case): ctx.a=vars4(ctx.dom,'a'); return [R(tuple(ctx.a)),R(case[0]),R(case[1])]
    def post(ctx,r,case): yield 'value',ctx.dom.equal(ctx.dom.fe(r),U(ctx.dom,ctx.a,*case))
    ob('level_22_constants_sqr',TH+'level_22_constants_sqr',[('%d,%d'%(x,y),(x,y)) for x in range(4) for y in range(4)],mk,post)
    def mk(ctx,f,case): return [R(tuple(with_zero(ctx.dom,*case)))]
    def post(ctx,r,case): yield 'index',tuple(r)==case
    ob('identify_even_index',TH+'identify_even_index',[('%d,%d'%c,c) for c in EVEN],mk,post,w=3)
    for case in EVEN:
        def mk(ctx,f,c): ctx.a=with_zero(ctx.dom,*c); return [R(tuple(ctx.a))]
        def post(ctx,r,c):
            M=[ctx.dom.fe(x) for x in r]; d=ctx.dom; b=lin(d,M,ctx.a)
            yield 'the image splits (ad = bc)',d.equal(d.mul(b[0],b[3]),d.mul(b[1],b[2]))
            # the matrix permutes the ten even constants: it is a change of theta structure
            d2=Field(P,'fp2',C2()); a=vars4(d2,'a'); M2=[FE(m.n,m.d) for m in M]
            con=all(not d.R.vars(m.n)-{d.I} and not d.R.vars(m.d)-{d.I} for m in M)
            yield 'constant matrix',con
            if not con: return
            b=lin(d2,M2,a); src={k:U(d2,a,*k) for k in EVEN}; hit={}
            for k in EVEN:
                u=U(d2,b,*k)
                for k2,v in src.items():
                    q=d2.R.divides(u.n,v.n)
                    if q is not None and u.n and not d2.R.vars(q)-{d2.I}: hit[k]=k2
            yield 'change of theta structure',len(set(hit.values()))==10
            yield 'moves the zero to (3,3)',hit.get((3,3))==c
        ob('compute_splitting_matrix, zero at %d,%d'%case,TH+'compute_splitting_matrix',[('',case)],mk,post,w=3)
    for k in range(0,4):
        C={}
        def csm(ctx,a): ctx.seen=a[0] if not isinstance(a[0],Ref) else ctx.load(a[0]); return tuple(ctx.M)
        C[TH+'compute_splitting_matrix']=csm
        def pre(ctx,a): ctx.pre=[ctx.dom.fe(x) for x in deep(ctx,a[0])]; ctx.tok=tuple(ctx.dom.var('c%d'%i) for i in range(6)); return ctx.tok
        C[TS+'precomputation']=pre
        def mk(ctx,f,case,k=k):
            d=ctx.dom; ctx.M=[d.var('m%d'%i) for i in range(16)]; a=vars4(d,'a',True); ctx.a=a; ctx.pts=[vars4(d,'U%d'%j) for j in range(k)]; ctx.c,r=pt_cells(ctx,ctx.pts)
            b=lin(d,ctx.M,a); ctx.seen=None
            return [structure(d,a,[d.var('s%d'%i,nonzero=True) for i in range(4)]),r]
        def post(ctx,r,case,k=k):
            d=ctx.dom; yield 'matrix of the null point',ctx.seen is not None and all(u is v for u,v in zip(ctx.seen,ctx.a))
            for i,(u,v) in enumerate(zip(r[0],lin(d,ctx.M,ctx.a))): yield 'null point %d'%i,d.equal(d.fe(u),v)
            yield 'constants of the new null point',all(d.equal(u,v) for u,v in zip(ctx.pre,lin(d,ctx.M,ctx.a))) and r[1]==ctx.tok
            for j in range(k):
                for i,(u,v) in enumerate(zip(ctx.c.v[j],lin(d,ctx.M,ctx.pts[j]))): yield 'point %d,%d'%(j,i),d.equal(d.fe(u),v)
        ob('splitting_isomorphism, %d points'%k,TH+'splitting_isomorphism',[('',None)],mk,post,more=C,bound='%d points'%k if k>1 else None)
    # ------------------------------------------------ product structures and Montgomery curves
    def mk(ctx,f,case):
        d=ctx.dom; pq=[d.var(n,nonzero=n in case) for n in('p0','p1','q0','q1')]
        for i,n in enumerate(('p0','p1','q0','q1')):
            if n not in case and case: pq[i]=d.const(0)
        ctx.pq=pq; a,b,u,v=pq; return [R((d.mul(a,u),d.mul(b,u),d.mul(a,v),d.mul(b,v)))]
    def post(ctx,r,case):
        d=ctx.dom; a,b,u,v=ctx.pq
        yield from proj(d,'first factor',r[0],[a,b]); yield from proj(d,'second factor',r[1],[u,v])
    ob('split_theta_point',TH+'split_theta_point',[('all coordinates non-zero',('p0','p1','q0','q1')),('p0 = 0',('p1','q0','q1')),('q1 = 0',('p0','p1','q0')),('q0 = 0',('p0','p1','q1')),('p1 = 0',('p0','q0','q1')),('p0 = q0 = 0',('p1','q1')),('p0 = q1 = 0',('p1','q0')),('p1 = q0 = 0',('p0','q1')),('p1 = q1 = 0',('p0','q0'))],mk,post)
    # one-dimensional theta structure (a : b) -> Montgomery
    def nl(ctx):
        d=ctx.dom; a,b=d.var('a',nonzero=True),d.var('b',nonzero=True); aa,bb=d.mul(a,a),d.mul(b,b)
        distinct(d,d.add(aa,bb),d.sub(aa,bb)); distinct(d,d.add(d.mul(aa,aa),d.mul(bb,bb))); ctx.ab=(a,b); return a,b
    def mk(ctx,f,case): return [R(nl(ctx))]
    def post(ctx,r,case):
        d=ctx.dom; a,b=ctx.ab; a4,b4=d.pow(a,4),d.pow(b,4); A=d.mul(d.scale(d.add(a4,b4),-2),d.inv(d.sub(a4,b4)))
        yield 'A (a^4-b^4) = -2(a^4+b^4)',d.equal(d.fe(r[0]),A); yield 'A24 = (A+2)/4',d.equal(d.scale(d.fe(r[1]),4),d.add(A,d.const(2)))
    ob('null_point_to_montgomery_curve',TH+'null_point_to_montgomery_curve',[('',None)],mk,post)
    def mk(ctx,f,case): a,b=nl(ctx); ctx.uv=(ctx.dom.var('u'),ctx.dom.var('v')); return [R((a,b)),R(ctx.uv)]
    def mont(d,a,b,u,v): return [d.add(d.mul(a,v),d.mul(b,u)),d.sub(d.mul(a,v),d.mul(b,u))]
    def post(ctx,r,case): d=ctx.dom; yield from proj(d,'x-coordinate',r,mont(d,*ctx.ab,*ctx.uv))
    ob('theta_point_to_montgomery_point',TH+'theta_point_to_montgomery_point',[('',None)],mk,post)
    def lemma(env,res):
        d=Field(P,'fp2',C2())
        class X: pass
        ctx=X(); ctx.dom=d; a,b=nl(ctx); u,v=d.var('u'),d.var('v'); m,ad,sb,iv=d.mul,d.add,d.sub,d.inv
        # doubling of one-dimensional theta points, then to Montgomery  =  to Montgomery, then doubling
        h=lambda x,y:(ad(x,y),sb(x,y)); s=lambda x,y:h(m(x,x),m(y,y))
        A,B=s(a,b); x,y=s(u,v); x,y=h(m(m(x,x),iv(A)),m(m(y,y),iv(B))); x,y=m(x,iv(a)),m(y,iv(b))
        a4,b4=d.pow(a,4),d.pow(b,4); MA=m(d.scale(ad(a4,b4),-2),iv(sb(a4,b4)))
        X1,Z1=mont(d,a,b,x,y); X0,Z0=mont(d,a,b,u,v); xx,zz=m(X0,X0),m(Z0,Z0)
        D=(m(sb(xx,zz),sb(xx,zz)),d.scale(m(m(X0,Z0),ad(ad(xx,m(MA,m(X0,Z0))),zz)),4))
        return [('theta doubling is Montgomery doubling',d.equal(m(X1,D[1]),m(Z1,D[0])),''),('the null point is infinity',d.equal(mont(d,a,b,a,b)[1],d.const(0)),'')]
    obs.append(Ob(p,'lemma: theta and Montgomery doubling agree','','field',lemma))
    return obs
# ------------------------------------------------------------------------------------------------ the chain
EP='ecFESTA::EllipticProduct::'; CP='ecFESTA::CouplePoint::'
class Tk(Sym):
    """term over the contracts of the callees"""
    def __init__(self,*t): self.t=t
    def __eq__(self,o): return isinstance(o,Tk) and self.t==o.t
    def __hash__(self): return hash(self.t)
    def same(self,o): return self==o
    def __repr__(self): return '%s(%s)'%(self.t[0],', '.join(map(repr,self.t[1:]))) if len(self.t)>1 else str(self.t[0])
class KP(Sym):
    """[2^e] of the image of b under the first j steps of the chain"""
    def __init__(self,b,j,e): self.b=b; self.j=j; self.e=e
    def __eq__(self,o): return isinstance(o,KP) and (self.b,self.j,self.e)==(o.b,o.j,o.e)
    def __hash__(self): return hash((self.b,self.j,self.e))
    def same(self,o): return self==o
    def __repr__(self): return '[2^%d]%s after %d steps'%(self.e,self.b,self.j)
class TS_(Sym):
    """codomain of step j (n+1: after the change of theta structure that makes the splitting visible)"""
    def __init__(self,j): self.j=j
    def same(self,o): return self is o
    def __repr__(self): return 'codomain %d'%self.j
def deep(ctx,v):
    while isinstance(v,Ref): v=ctx.load(v)
    return v
def items(v): return list(v.items) if isinstance(v,VecVal) else list(v)
def store_all(ctx,r,vs):
    v=ctx.load(r); ctx.store(r,VecVal(vs) if isinstance(v,VecVal) else tuple(vs))
def chain_c():
    C={}
    def kp(ctx,v):
        v=deep(ctx,v)
        if not isinstance(v,KP): raise Unsupported('point expected')
        return v
    def at(ctx,v):
        v=deep(ctx,v)
        if not isinstance(v,TS_): raise Unsupported('structure expected')
        return v.j
    def di(ctx,a):
        E,p,m=deep(ctx,a[0]),kp(ctx,a[1]),a[2]
        if E!=ctx.E or p.j!=0: raise Refuted('doubling %r on the domain'%p)
        return KP(p.b,0,p.e+m)
    C[EP+'double_iter']=di; C[EP+'double']=lambda ctx,a: di(ctx,list(a)+[1])
    def dt(ctx,a):
        j,p,m=at(ctx,a[0]),kp(ctx,a[1]),a[2]
        if m and p.j!=j: raise Refuted('doubling %r on codomain %d'%(p,j))
        if m and j>ctx.n-2: raise Refuted('doubling on codomain %d, where the doubling formulas have no inverses'%j)
        return KP(p.b,p.j,p.e+m)
    C[TS+'double_iter']=dt; C[TS+'double_point']=lambda ctx,a: dt(ctx,list(a)+[1])
    def kernel(ctx,j,a,b):
        w=ctx.n-1-j
        for nm,p in zip('PQ',(kp(ctx,a),kp(ctx,b))):
            if p!=KP(nm,j,w): raise Refuted('step %d with %r instead of %r'%(j,p,KP(nm,j,w)))
    def push(ctx,j,ps):
        o=[]
        for p in ps:
            p=deep(ctx,p)
            if not isinstance(p,KP) or p.j!=j: raise Refuted('step %d evaluated at %r'%(j,p))
            o.append(KP(p.b,j+1,p.e))
        return o
    def glue(ctx,a):
        if deep(ctx,a[0])!=ctx.E: raise Refuted('gluing of another product')
        if ctx.n<2: raise Unproved('chain of length one')
        kernel(ctx,0,a[1],a[2]); return (TS_(1),VecVal(push(ctx,0,items(ctx.load(a[3])))))
    C[TH+'gluing_isogeny']=glue
    def two(ctx,a):
        j=at(ctx,a[0]); fl=tuple(bool(x) for x in deep(ctx,a[4])); kernel(ctx,j,a[1],a[2])
        if j>ctx.n-2: raise Refuted('general step %d of %d'%(j,ctx.n))
        if fl!=(False,j!=ctx.n-2): raise Refuted('step %d of %d with transforms %r'%(j,ctx.n,fl))
        store_all(ctx,a[3],push(ctx,j,items(ctx.load(a[3])))); return TS_(j+1)
    C[TH+'two_isogeny']=two
    def prod_(ctx,a):
        j=ctx.n-1; kernel(ctx,j,a[0],a[1]); store_all(ctx,a[2],push(ctx,j,items(ctx.load(a[2])))); return TS_(j+1)
    C[TH+'two_isogeny_to_product']=prod_
    def spl(ctx,a):
        j=at(ctx,a[0])
        if j!=ctx.n: raise Refuted('splitting codomain %d'%j)
        store_all(ctx,a[1],push(ctx,j,items(ctx.load(a[1])))); return TS_(j+1)
    C[TH+'splitting_isomorphism']=spl
    def split(ctx,a):
        j=at(ctx,a[0]); ps=items(ctx.load(a[1])); k=a[2]
        if j!=ctx.n+1: raise Refuted('product from codomain %d'%j)
        if k>len(ps): raise Refuted('number of images')
        return (Tk('product'),VecVal([KP(p.b,-1,p.e) for p in push(ctx,j,ps[:k])]))
    C[TH+'split_to_product']=split
    return C
def strategies(n):
    """all valid strategies for a tree with n leaves"""
    if n<=1: return [[]]
    return [[b]+x+y for b in range(1,n) for x in strategies(n-b) for y in strategies(b)]
def drive(env,res,fn,n,k,strat,lab):
    out=[]
    def args(ctx):
        ctx.n=n; ctx.E=Tk('E1E2'); im=tuple(KP('R%d'%i,0,0) for i in range(k)); r=lambda v:Ref(Cell(v))
        a=[r(ctx.E),r(KP('P',0,0)),r(KP('Q',0,0)),Ref(Cell(im),(),(0,k)),n]
        return a+([Ref(Cell(tuple(strat)),(),(0,len(strat)))] if strat is not None else [])
    for o in explore(env.crate,lambda:Domain(chain_c()),env.fn(fn),args):
        res.paths+=1; note(res,o.ctx)
        if o.kind!='return': out.append((lab+'no panic',False,o.msg)); continue
        c,v=o.ret; v=items(v)
        out.append((lab+'codomain',c==Tk('product'),repr(c))); out.append((lab+'images of all evaluation points in order',v==[KP('R%d'%i,-1,0) for i in range(k)],repr(v)[:300]))
    return out
def chain_obs(p,obs,SE):
    from prop_const import raw,FX
    PI=TH+'product_isogeny'
    for k in range(4):
        obs.append(Ob(p,'product_isogeny, length 632, THETA_STRATEGY, %d points'%k,PI,'exec',lambda env,res,k=k:drive(env,res,PI,raw(env,FX+'THETA_ISOGENY_LENGTH'),k,list(raw(env,FX+'THETA_STRATEGY')),''),search=SE,weight=6))
    def small(env,res):
        out=[]
        for n in range(2,8):
            for s in strategies(n): out+=drive(env,res,PI,n,len(s)%3,s,'length %d, strategy %r: '%(n,s))
        return out
    obs.append(Ob(p,'product_isogeny, every strategy',PI,'exec',small,search=SE,weight=6,bound='lengths 2..7, all strategies'))
    NS=PI+'_no_strategy'
    obs.append(Ob(p,'product_isogeny_no_strategy, length 632',NS,'exec',lambda env,res:[x for k in range(3) for x in drive(env,res,NS,raw(env,FX+'THETA_ISOGENY_LENGTH'),k,None,'%d points: '%k)],search=SE,weight=6))
    obs.append(Ob(p,'product_isogeny_no_strategy, other lengths',NS,'exec',lambda env,res:[x for n in range(2,24) for x in drive(env,res,NS,n,n%3,None,'length %d: '%n)],search=SE,weight=4,bound='lengths 2..23'))
    # ---- the gluing step over its contracts
    def glu(env,res):
        fn=env.fn(TH+'gluing_isogeny'); out=[]; D=lambda *a:Tk(*a)
        for k in range(5):
            C={}; g=deep
            for nm,w in(('double','dbl'),('add','add')): C[EP+nm]=(lambda w:lambda ctx,a:Tk(w,*[g(ctx,x) for x in a]))(w)
            C[TH+'get_base_matrix']=lambda ctx,a:Tk('M',*[g(ctx,x) for x in a])
            C[TH+'base_change_couple_point']=lambda ctx,a:Tk('bc',g(ctx,a[0]),g(ctx,a[1]))
            def gc(ctx,a): t=[g(ctx,x) for x in a]; return (Tk('cod',*t),(Tk('ia',*t),Tk('ib',*t)),Tk('z',*t))
            C[TH+'gluing_codomain']=gc
            C[TH+'gluing_image']=lambda ctx,a:Tk('gi',*[g(ctx,x) for x in a])
            E,P_,Q_=Tk('E'),Tk('P8'),Tk('Q8'); pts=tuple(Tk('R%d'%i) for i in range(k))
            for o in explore(env.crate,lambda:Domain(C),fn,lambda ctx:[Ref(Cell(E)),Ref(Cell(P_)),Ref(Cell(Q_)),Ref(Cell(pts),(),(0,k))]):
                res.paths+=1; note(res,o.ctx)
                if o.kind!='return': out.append(('no panic',False,o.msg)); continue
                p4,q4=Tk('dbl',E,P_),Tk('dbl',E,Q_); M=Tk('M',E,p4,q4); t=(Tk('bc',P_,M),Tk('bc',Q_,M))
                cod,im=o.ret; im=items(im); bad=[x for x in im if not(isinstance(x,Tk) and x.t[0]=='gi' and len(x.t)==6)]
                out.append(('%d points: codomain'%k,cod==Tk('cod',*t),repr(cod)))
                def shift(i): return {Tk('add',E,pts[i],p4),Tk('add',E,p4,pts[i])}
                ok=not bad and len(im)==k and all(x.t[1]==Tk('bc',pts[i],M) and x.t[2] in {Tk('bc',s,M) for s in shift(i)} and x.t[3:]==(Tk('ia',*t),Tk('ib',*t),Tk('z',*t)) for i,x in enumerate(im))
                out.append(('%d points: images, in order, with the translate by the four-torsion point of the first generator'%k,ok,repr(im)[:300]))
        return out
    obs.append(Ob(p,'gluing_isogeny',TH+'gluing_isogeny','exec',glu,search=SE,fallback=True))
    def spl(env,res):
        fn=env.fn(TH+'split_to_product'); out=[]
        for k,m in((0,0),(0,2),(1,1),(1,3),(2,2),(2,4),(3,3),(4,10)):
            C={}; g=deep
            C[TH+'split_theta_point']=lambda ctx,a:(Tk('s1',g(ctx,a[0])),Tk('s2',g(ctx,a[0])))
            C[TH+'null_point_to_montgomery_curve']=lambda ctx,a:Tk('E',g(ctx,a[0]))
            C[TH+'theta_point_to_montgomery_point']=lambda ctx,a:Tk('X',g(ctx,a[0]),g(ctx,a[1]))
            C[CV+'complete_pointX']=lambda ctx,a:(Tk('lift',g(ctx,a[0]),g(ctx,a[1])),0xFFFFFFFF)
            O=Tk('O'); pts=tuple(Tk('T%d'%i) for i in range(m))
            for o in explore(env.crate,lambda:Domain(C),fn,lambda ctx:[Ref(Cell((O,Opaque('constants')))),Ref(Cell(pts),(),(0,m)),k]):
                res.paths+=1; note(res,o.ctx); lab='%d of %d points: '%(k,m)
                if o.kind!='return': out.append((lab+'no panic',False,o.msg)); continue
                E,v=o.ret; n=[Tk('s%d'%i,O) for i in(1,2)]; c=tuple(Tk('E',x) for x in n)
                out.append((lab+'codomain',tuple(E)==c,repr(E)))
                w=[tuple(Tk('lift',c[i],Tk('X',n[i],Tk('s%d'%(i+1),x))) for i in(0,1)) for x in pts[:k]]
                out.append((lab+'images',[tuple(x) for x in items(v)]==w,repr(v)[:300]))
        return out
    obs.append(Ob(p,'split_to_product',TH+'split_to_product','exec',spl,search=SE,fallback=True))
    return obs
