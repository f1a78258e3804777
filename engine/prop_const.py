"""Public parameters: the constants are evaluated from the MIR of the current source and compared with the specification
or with each other by exact integer arithmetic (ground obligations); the parameters derived at start-up are obtained by
executing the constructor over the contracts of the basis generators."""
from prop_grp import *
import functools,math
FX='fields::FpFESTAExt::'; FF='fields::FpFESTA::'
def raw(env,name):
    ctx=Ctx(env.crate,IntDom({})); return ld(ctx,ctx.const_path(name))
def num32(v): return sum(x<<32*i for i,x in enumerate(v))
def num64(v): return sum(x<<64*i for i,x in enumerate(v))
def N32(env,n): return num32(raw(env,FX+n))
def FACD(env,n): return [tuple(x) for x in raw(env,FX+n+'_FACTORED')]
def prodf(f): return functools.reduce(lambda a,x:a*x[0]**x[1],f,1)
FULLF=[(2,E2)]+sorted(F_ODD.items())
def isprime(n):
    return n>1 and all(n%d for d in range(2,int(n**.5)+1))
def fpv(v):
    """integer value of an Fp constant"""
    while isinstance(v,tuple) and len(v)==1: v=v[0]
    n=num64(v); return None if n>=P else unmont(n)
def strategy_ok(n,st):
    """the list parses as a strategy for n steps: S(1)=[], S(n)=[b]+S(n-b)+S(b) with 0<b<n"""
    pos=0; todo=[n]
    while todo:
        m=todo.pop()
        if m==1: continue
        if m<1 or pos>=len(st): return False
        b=st[pos]; pos+=1
        if not 0<b<m: return False
        todo.append(b); todo.append(m-b)
    return pos==len(st)
def c16(crate):
    p='C16'; obs=[]
    def g(name,f,where=''):
        def run(env,res): return list(f(env))
        obs.append(Ob(p,name,'','ground integers',run,search=['pp.all']))
    g('p: modulus constants',lambda e:[('MODULUS = p',num64(raw(e,FF+'MODULUS'))==P,''),('Fp::MODULUS = p',num64(raw(e,FF+'Fp::MODULUS'))==P,''),('BIGUINT_MODULUS = p',N32(e,'BIGUINT_MODULUS')==P,''),('HALF_MODULUS = (p+1)/2',num64(raw(e,FF+'HALF_MODULUS'))==(P+1)//2,''),
        ('bit length',raw(e,FF+'BITLEN')==P.bit_length()==raw(e,FF+'Fp::BIT_LENGTH'),''),('limbs',raw(e,FF+'N')==NL==raw(e,FF+'Fp::N'),''),('encoded length',raw(e,FF+'Fp::ENCODED_LENGTH')==ENC,''),('P0I = -1/p mod 2^64',raw(e,FF+'P0I')==-pow(P,-1,1<<64)%(1<<64),'')])
    def prime(e):
        yield 'p = 3 mod 4',P%4==3,''
        yield 'p+1 = 2^634 * product of the listed prime powers',P+1==prodf(FULLF) and all(isprime(l) for l,_ in FULLF),''
        # n+1 primality criterion: in the norm-one group of Z_p[i], for every prime q dividing p+1 an element killed by p+1 whose
        # (p+1)/q-th power minus one is invertible; hence every prime divisor r of p has p+1 | r-1 or p+1 | r+1, so r = p
        for q,_ in FULLF:
            ok=False
            for k in range(1,60):
                d=(k*k+1)%P
                if math.gcd(d,P)!=1: continue
                u=div2((k,1),(k,P-1)); w=pow2(u,(P+1)//q)
                if pow2(w,q)!=ONE2: break
                x=(w[0]-1,w[1])
                if math.gcd((x[0]*x[0]+x[1]*x[1])%P,P)==1: ok=True; break
            yield 'certificate for the prime %d'%q,ok,''
    g('the modulus is prime (n+1 certificate) and 3 mod 4',prime)
    g('group order',lambda e:[('BASIS_ORDER = p+1',N32(e,'BASIS_ORDER')==P+1,''),('2^L_POWER divides p+1 exactly',(P+1)%(1<<raw(e,FX+'L_POWER'))==0 and (P+1)>>raw(e,FX+'L_POWER')&1==1,''),('chain length + 2 = L_POWER',raw(e,FX+'THETA_ISOGENY_LENGTH')+2==raw(e,FX+'L_POWER'),'')])
    for D,k in(('D1',1),('D2',1),('DA',1),('DA1',2),('DA2',2)):
        def f(e,D=D,k=k):
            fl=FACD(e,D); yield D+(' is the product of its prime powers' if k==1 else ' is the square of the product of its prime powers'),N32(e,D)==prodf(fl)**k,''
            yield 'listed factors are distinct odd primes',len({l for l,_ in fl})==len(fl) and all(isprime(l) and l>2 and x>=1 for l,x in fl),''
            if D!='DA': yield 'product divides p+1',(P+1)%prodf(fl)==0,''
        g('degree '+D,f)
    g('DA = DA1*DA2',lambda e:[('DA = DA1*DA2',N32(e,'DA')==N32(e,'DA1')*N32(e,'DA2'),'')])
    def norm(e):
        T=raw(e,FX+'THETA_ISOGENY_LENGTH')
        yield 'M1^2*DA1*D1 + M2^2*DA2*D2 = 2^length',N32(e,'M1')**2*N32(e,'DA1')*N32(e,'D1')+N32(e,'M2')**2*N32(e,'DA2')*N32(e,'D2')==1<<T,''
        import math
        a,b=N32(e,'D1')*N32(e,'DA1'),N32(e,'D2')*N32(e,'DA2')
        yield 'D1, D2, DA1, DA2, 2 pairwise coprime',math.gcd(a,b)==1 and math.gcd(N32(e,'D1'),N32(e,'DA1'))==1 and math.gcd(N32(e,'D2'),N32(e,'DA2'))==1 and a*b&1==1,''
        yield 'M1, M2 odd',N32(e,'M1')&1==1 and N32(e,'M2')&1==1,''
    g('norm equation',norm)
    def strat(e):
        st=list(raw(e,FX+'THETA_STRATEGY')); T=raw(e,FX+'THETA_ISOGENY_LENGTH')
        yield 'length',len(st)==T-1,''; yield 'the strategy is well-formed for its length',strategy_ok(T,st),''
    g('isogeny strategy',strat)
    NAMES={'ZERO':0,'ONE':1,'TWO':2,'THREE':3,'FOUR':4,'MINUS_ONE':-1}
    g('Fp constants',lambda e:[(n,fpv(raw(e,FF+'Fp::'+n))==v%P,'') for n,v in NAMES.items()])
    g('Fp Montgomery constants',lambda e:[('R2 represents R',num64(raw(e,FF+'R2_VAL'))==R*R%P,''),('R_VAL',num64(raw(e,FF+'R_VAL'))==R%P,''),('TDEC',fpv(raw(e,FF+'Fp::TDEC')) is not None and num64(raw(e,FF+'TDEC_VAL'))<P,'')])
    def f2c(e):
        for n,v in NAMES.items():
            x=raw(e,FX+'Fp2::'+n); yield 'Fp2 '+n,(fpv(x[0]),fpv(x[1]))==(v%P,0),''
        for n,v in(('ZETA',1),('MINUS_ZETA',-1)):
            x=raw(e,FX+'Fp2::'+n); yield 'Fp2 '+n,(fpv(x[0]),fpv(x[1]))==(0,v%P),''
        x=raw(e,FX+'Fp2::NQR'); a,b=fpv(x[0]),fpv(x[1]); yield 'NQR is a non-square',chi((a*a+b*b)%P)==-1,''
        yield 'Fp2 encoded length',raw(e,FX+'Fp2::ENCODED_LENGTH')==2*ENC,''
    g('Fp2 constants',f2c)
    # ---- parameters derived by the constructor
    flds0=['E0','l_power','d1','d2','d1d2','inv_scalar','clear_d1','clear_d2','clear_lb','g2','E0_lb_basis','E0_d1_basis']
    def new(env,res):
        fn=env.fn('festa::FESTACrypto::new'); out=[]
        def con():
            C=gen_contracts()
            def xg(ctx,a):
                import math
                x,y=ld(ctx,a[0]),ld(ctx,a[1])
                if math.gcd(x,y)!=1: raise Refuted('inverse of numbers that are not coprime')
                return pow(x,-1,y)
            C[DL+'xgcd_big']=xg
            C[SS+'entangled_torsion_basis']=lambda ctx,a: ('entangled',ld(ctx,a[0]),ld(ctx,a[1]))
            C[SS+'torsion_basis']=lambda ctx,a: ('torsion',ld(ctx,a[0]),tuple(ctx.load(a[1])),a[2])
            C[CV+'new']=lambda ctx,a: ('curve',ld(ctx,a[0]))
            def fadd(ctx,a):
                x,y=ld(ctx,a[0]),ld(ctx,a[1]); z=[]
                for u,v in zip(x,y):
                    n=(num64(u[0] if isinstance(u[0],tuple) else u)+num64(v[0] if isinstance(v[0],tuple) else v))%P
                    t=tuple(n>>64*i&(1<<64)-1 for i in range(NL)); z.append((t,) if isinstance(u[0],tuple) else t)
                return tuple(z)
            C[FP2+'set_add']=lambda ctx,a: (ctx.store(a[0],fadd(ctx,a)),())[1]
            return C
        for o in explore(env.crate,lambda:GrpDom(con()),fn,lambda ctx:[]):
            res.paths+=1; note(res,o.ctx)
            if o.kind!='return': out.append(('no panic',False,o.msg)); continue
            flds=env.crate.field_order('festa::FESTACrypto') or flds0
            if set(flds)!=set(flds0): out.append(('fields',None,'')); continue
            v=dict(zip(flds,o.ret)); L=1<<634; d1,d2=N32(env,'D1'),N32(env,'D2'); m1,m2=N32(env,'M1'),N32(env,'M2'); ints=all(isinstance(v[k],int) for k in flds0[1:10])
            if not ints: out.append(('derived parameters are integers',None,'')); continue
            c=v['E0']; out.append(('starting curve has constant 6',isinstance(c,tuple) and c[0]=='curve' and tuple(fpv(x) for x in c[1])==(6,0),''))
            out+=[('l_power',v['l_power']==L,''),('d1, d2, d1d2',(v['d1'],v['d2'],v['d1d2'])==(d1,d2,d1*d2),''),
              ('inv_scalar*d1^2*d2*m1 = 1 mod 2^n',v['inv_scalar']*d1*d1*d2*m1%L==1,''),('clear_d1 = 1 mod 2^n, 0 mod d1',v['clear_d1']%L==1 and v['clear_d1']%d1==0,''),
              ('clear_d2 = 1 mod 2^n, 0 mod d2',v['clear_d2']%L==1 and v['clear_d2']%d2==0,''),('clear_lb = 0 mod 2^n, 1 mod d2',v['clear_lb']%L==0 and v['clear_lb']%d2==1,''),
              ('g2*m2*dA2*d2 = m1*d1 mod 2^n',(v['g2']*m2*N32(env,'DA2')*d2-m1*d1)%L==0,''),
              ('even basis is cleared by (p+1)/2^n',v['E0_lb_basis'][0]=='entangled' and v['E0_lb_basis'][1]==c and v['E0_lb_basis'][2]==(P+1)>>634,''),
              ('odd basis has order d1',v['E0_d1_basis'][0]=='torsion' and v['E0_d1_basis'][1]==c and prodf(v['E0_d1_basis'][2])==d1,'')]
        return out
    obs.append(Ob(p,'FESTACrypto::new','festa::FESTACrypto::new','ground integers',new,search=['fe.diagb'],fallback=True))
    return obs
