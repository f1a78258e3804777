"""Concrete oracles and boundary-biased input generators for the native harness: used to look for a
failing input once an obligation has failed, and for the obligations labelled bounded."""
import random
from spec import *

OPS={}
class Op:
    def __init__(self,name,gen,oracle): self.name=name; self.gen=gen; self.oracle=oracle
def op(name,gen):
    def d(f): OPS[name]=Op(name,gen,f); return f
    return d
def hx(v): return format(v,'x')
def h2(x): return hx(x[0])+','+hx(x[1])
def un(s): return int(s,16)
def un2(s):
    a,b=s.split(','); return int(a,16),int(b,16)

PL=[(P>>(64*i))&(2**64-1) for i in range(NL)]
ONESW=2**64-1
def raw(r):
    """a canonical raw (Montgomery) value, boundary biased"""
    k=r.randrange(12)
    if k<4: return r.randrange(P)
    if k==4: return r.choice([0,1,2,P-1,P-2,(P-1)//2,(P+1)//2,R%P,P-R%P,R*R%P,2*R%P,3*R%P,(P-1)//4,(P+1)//4])
    if k==5: return mont(r.choice([r.randrange(1<<16),-r.randrange(1<<16),1<<r.randrange(1300),-(1<<r.randrange(1300)),r.randrange(1<<64)]))
    if k==6: return (1<<r.randrange(1292))%P
    if k==7: return P-1-r.randrange(1<<r.randrange(1,80))
    if k==8: return r.randrange(1<<(64*r.randrange(1,21)))%P
    ls=[]
    for i in range(NL):
        t=r.randrange(9)
        pi=PL[i]
        ls.append([0,ONESW,1,1<<63,pi,(pi+1)&ONESW,(pi-1)&ONESW,r.randrange(1<<64),r.randrange(1<<64)][t if k==9 else r.choice([0,1,4,t])])
    v=sum(x<<(64*i) for i,x in enumerate(ls))
    return v if v<P else v%P
def pair_add(r):
    a=raw(r); k=r.randrange(8)
    if k==0: return a,(P-a)%P
    if k==1: return a,(P-a+r.choice([-2,-1,1,2]))%P
    if k==2: return a,a
    if k==3: return a,(a+r.choice([-2,-1,1,2,1<<r.randrange(1292)]))%P
    if k==4: return a,(P-a-(1<<(64*r.randrange(21))))%P
    return a,raw(r)
def pair_mul(r):
    a=raw(r); k=r.randrange(6)
    if a and k==0: return a,r.randrange(1<<r.randrange(1,66))*R*pow(a,-1,P)%P
    if a and k==1: return a,(P-1-r.randrange(1<<r.randrange(1,66)))*R*pow(a,-1,P)%P
    if k==2: return a,a
    if k==3: return a,(P-a)%P
    return a,raw(r)
def sq_in(r):
    # products with a tiny or a huge result
    k=r.randrange(4)
    if k<2:
        v=r.randrange(1,1<<r.randrange(1,40)); v=v if k else P-v
        t=v*R%P
        if chi(t)==1: return sqrt1(t)
    return raw(r)
def el2(r):
    k=r.randrange(8)
    if k==0: return (raw(r),0)
    if k==1: return (0,raw(r))
    if k==2:
        a=raw(r); return (a,a) if r.randrange(2) else (a,(P-a)%P)
    return (raw(r),raw(r))
def A1(r): return [hx(raw(r))]
def A2a(r): return [hx(x) for x in pair_add(r)]
def A2m(r): return [hx(x) for x in pair_mul(r)]
def Asq(r): return [hx(sq_in(r))]
def B1(r): return [h2(el2(r))]
def B2(r):
    x=el2(r); k=r.randrange(6)
    if k==0: return [h2(x),h2(x)]
    if k==1: return [h2(x),h2(neg2(x))]
    if k==2: return [h2(x),h2((x[0],(P-x[1])%P))]
    if k==3:
        a,b=pair_add(r); c,d=pair_add(r); return [h2((a,c)),h2((b,d))]
    return [h2(x),h2(el2(r))]
def expect(f):
    """oracle from a function giving the expected list of strings"""
    def o(args,out):
        e=f(*args)
        if out[0]=='ok' and out[1]==e: return None
        return 'expected %s got %s %s'%(' '.join(e),out[0],' '.join(out[1]))
    return o
def bin1(name,gen,f): OPS[name]=Op(name,gen,expect(lambda *a:[hx(f(*[un(x) for x in a])%P)]))
def bin2(name,gen,f): OPS[name]=Op(name,gen,expect(lambda *a:[h2(f(*[un2(x) for x in a]))]))
bin1('fp.add',A2a,lambda a,b:a+b)
bin1('fp.sub',A2a,lambda a,b:a-b)
bin1('fp.mul',A2m,lambda a,b:a*b*RINV)
bin1('fp.neg',A1,lambda a:-a)
bin1('fp.square',Asq,lambda a:a*a*RINV)
HALF=pow(2,-1,P)
bin1('fp.half',A1,lambda a:a*HALF)
def near(k):
    def g(r):
        if r.randrange(2): return A1(r)
        # k*a close to a multiple of p
        return [hx(((r.randrange(k+1)*P)//k+r.randrange(-3,4))%P)]
    return g
for _k in(2,3,4,8): bin1('fp.mul%d'%_k,near(_k),lambda a,_k=_k:_k*a)
def g_small(r):
    k=r.choice([0,1,-1,2,2**31-1,-2**31,-2**31+1,r.randrange(-2**31,2**31),r.randrange(-100,100)])
    a=raw(r)
    if k and r.randrange(2): a=((r.randrange(abs(k)+1)*P)//abs(k)+r.randrange(-3,4))%P
    return [hx(a),str(k)]
OPS['fp.mul_small']=Op('fp.mul_small',g_small,expect(lambda a,k:[hx(un(a)*int(k)%P)]))
def inv1(a): return pow(a,-1,P) if a else 0
def gcd_in(r):
    """operands for which the first rounds of a binary GCD with p run into equal leading words, cancellation or long shifts"""
    k=r.randrange(6)
    if k==0:
        d=r.randrange(1,1<<r.randrange(1,70)); return ((P*r.randrange(d+1))//d+r.choice([-1,1])*r.randrange(1<<r.randrange(1,1200)))%P
    if k==1: return (r.randrange(1,1<<r.randrange(1,80))<<r.randrange(1250))%P
    if k==2: return (P-(r.randrange(1,1<<r.randrange(1,70))<<r.randrange(1250)))%P
    if k==3:
        # a fraction c/d modulo p with small c, d
        return r.randrange(1,1<<r.randrange(1,640))*pow(r.randrange(1,1<<r.randrange(1,640)),-1,P)%P
    if k==4: return P*987654321//1597463007+r.randrange(1<<r.randrange(1,1200))
    return raw(r)
def g_div(r):
    a,b=raw(r),(gcd_in(r) if r.randrange(2) else raw(r))
    if r.randrange(12)==0: b=0
    return [hx(a),hx(b)]
bin1('fp.div',g_div,lambda a,b:a*inv1(b)*R)
bin1('fp.invert',A1,lambda a:inv1(a)*R*R)
def o_sqrt(fourth):
    def o(args,out):
        a=unmont(un(args[0]))
        if out[0]!='ok': return 'no result: '+str(out)
        y=unmont(un(out[1][0])); c=out[1][1]
        if un(out[1][0])>=P: return 'not canonical'
        if chi(a)<0:
            return None if (y==0 and c=='0') else 'non-square: expected (0, 0), got (%x, %s)'%(y,c)
        if c!='ffffffff': return 'square reported as non-square'
        if pow(y,4 if fourth else 2,P)!=a: return 'wrong root %x'%y
        if y&1: return 'root is odd'
        return None
    return o
def g_sq(r):
    a=raw(r)
    if r.randrange(2): a=a*a*RINV%P
    return [hx(a)]
def g_leg(r): return [hx(gcd_in(r) if r.randrange(2) else un(g_sq(r)[0]))]
OPS['fp.sqrt']=Op('fp.sqrt',g_sq,o_sqrt(False))
OPS['fp.fourth_root']=Op('fp.fourth_root',g_sq,o_sqrt(True))
OPS['fp.legendre']=Op('fp.legendre',g_leg,expect(lambda a:[str(chi(un(a)*RINV))]))
OPS['fp.iszero']=Op('fp.iszero',lambda r:[hx(r.choice([0,1<<r.randrange(1292),raw(r),raw(r)]))],expect(lambda a:['ffffffff' if un(a)==0 else '0']))
def g_eq(r):
    a=raw(r); k=r.randrange(4)
    b=a if k==0 else (a^(1<<r.randrange(1292)))%P if k<3 else raw(r)
    return [hx(a),hx(b)]
OPS['fp.equals']=Op('fp.equals',g_eq,expect(lambda a,b:['ffffffff' if un(a)==un(b) else '0']))
def g_ctl(r): return A2a(r)+[str(r.randrange(2))]
def g_ctl1(r): return A1(r)+[str(r.randrange(2))]
OPS['fp.select']=Op('fp.select',g_ctl,expect(lambda a,b,c:[b if c=='1' else a]))
OPS['fp.set_cond']=Op('fp.set_cond',g_ctl,expect(lambda a,b,c:[b if c=='1' else a]))
OPS['fp.set_condneg']=Op('fp.set_condneg',g_ctl1,expect(lambda a,c:[hx(-un(a)%P) if c=='1' else a]))
OPS['fp.condswap']=Op('fp.condswap',g_ctl,expect(lambda a,b,c:[b,a] if c=='1' else [a,b]))
def A4(r):
    a,b=pair_mul(r); c,d=pair_mul(r)
    if r.randrange(3)==0 and c:
        # a*b +- c*d tiny
        t=r.choice([0,1,-1,2,-2,r.randrange(1<<60),-r.randrange(1<<60)])
        s=r.choice([1,-1])
        d=s*(a*b-t*R)*pow(c,-1,P)%P
    return [hx(x) for x in(a,b,c,d)]
bin1('fp.sop',A4,lambda a,b,c,d:(a*b+c*d)*RINV)
bin1('fp.dop',A4,lambda a,b,c,d:(a*b-c*d)*RINV)
def le(v,n): return v.to_bytes(n,'little').hex() if n else '-'
OPS['fp.encode']=Op('fp.encode',lambda r:[hx(raw(r) if r.randrange(3) else mont(raw(r)))],expect(lambda a:[le(unmont(un(a)),ENC)]))
def bval(s): return int.from_bytes(bytes.fromhex(s),'little') if s!='-' else 0
def blen(s): return 0 if s=='-' else len(s)//2
def g_dec1(r):
    k=r.randrange(6)
    if k==0: n=r.choice([0,1,ENC-1,ENC+1,2*ENC]); return le(r.randrange(1<<(8*n)) if n else 0,n)
    if k==1: return le((P+r.choice([-2,-1,0,1,2,1<<r.randrange(1200)]))%(1<<(8*ENC)),ENC)
    if k==2: return le(r.choice([(1<<(8*ENC))-1,r.randrange(P,1<<(8*ENC))]),ENC)
    if k==3: return le((P^(1<<r.randrange(1296))),ENC)
    return le(raw(r),ENC)
OPS['fp.decode']=Op('fp.decode',lambda r:[g_dec1(r)],expect(lambda b:[hx(mont(bval(b))),'ffffffff'] if blen(b)==ENC and bval(b)<P else ['0','0']))
def g_dr(r):
    n=r.choice([0,1,2,7,8,9,159,160,161,162,163,178,319,320,321,322,480,481,640,r.randrange(700)])
    if n==0: return ['-']
    k=r.randrange(5)
    v=r.randrange(1<<(8*n)) if k<2 else (1<<(8*n))-1 if k==2 else ((1<<(8*n))//P*P+r.randrange(-2,3))%(1<<(8*n)) if k==3 else r.randrange(1<<(8*n-r.randrange(8*n)))
    return [le(v,n)]
OPS['fp.decode_reduce']=Op('fp.decode_reduce',g_dr,expect(lambda b:[hx(mont(bval(b)))]))
def g_int(lo,hi):
    def g(r): return [str(r.choice([lo,hi,0,1,lo+1,hi-1,max(lo,-1),r.randrange(lo,hi+1),r.randrange(lo,hi+1)]))]
    return g
for _n,_lo,_hi in(('i32',-2**31,2**31-1),('i64',-2**63,2**63-1),('u32',0,2**32-1),('u64',0,2**64-1)):
    OPS['fp.from_'+_n]=Op('fp.from_'+_n,g_int(_lo,_hi),expect(lambda k:[hx(mont(int(k)))]))
def bits_of(hexs,off,n):
    v=bval(hexs); return (v>>off)&((1<<n)-1)
def g_exp(r,maxbytes=170):
    n=r.choice([1,2,8,9,32,r.randrange(1,maxbytes)])
    v=r.choice([0,1,(1<<(8*n))-1,1<<(8*n-1),r.randrange(1<<(8*n))])
    bl=r.choice([0,1,8*n,8*n-1,r.randrange(8*n+1)])
    return le(v,n),bl
def g_pow(el):
    def g(r):
        e,b=g_exp(r,40); return [el(r),e,str(b)]
    return g
def g_powx(el):
    def g(r):
        e,b=g_exp(r,40); o=r.randrange(8*blen(e)-b+1); return [el(r),e,str(o),str(b)]
    return g
EL1=lambda r:hx(raw(r))
EL2=lambda r:h2(el2(r))
def pw1(a,e): return [hx(mont(pow(unmont(un(a)),e,P)))]
def u2(s): x=un2(s); return (unmont(x[0]),unmont(x[1]))
def m2(x): return (mont(x[0]),mont(x[1]))
def pw2(a,e): return [h2(m2(pow2(u2(a),e)))]
for _p,_el,_pw in(('fp.',EL1,pw1),('fp2.',EL2,pw2)):
    OPS[_p+'pow']=Op(_p+'pow',g_pow(_el),expect(lambda a,e,b,_pw=_pw:_pw(a,bits_of(e,0,int(b)))))
    OPS[_p+'pow_ext']=Op(_p+'pow_ext',g_powx(_el),expect(lambda a,e,o,b,_pw=_pw:_pw(a,bits_of(e,int(o),int(b)))))
    OPS[_p+'pow_big']=Op(_p+'pow_big',lambda r,_el=_el:[_el(r),hx(r.choice([0,1,2,3,255,256,P-1,r.randrange(1<<r.randrange(1,1400))]))],expect(lambda a,e,_pw=_pw:_pw(a,int(e,16))))
OPS['fp2.pow_small']=Op('fp2.pow_small',lambda r:[EL2(r),str(r.choice([0,1,2,3,2**32-1,2**31,r.randrange(2**32),r.randrange(300)]))],expect(lambda a,e:pw2(a,int(e))))
def g_u64(r): return r.choice([0,1,2,3,2**64-1,2**63,r.randrange(2**64),r.randrange(2**r.randrange(1,64))])
OPS['fp2.pow_u64']=Op('fp2.pow_u64',lambda r:(lambda e,b:[EL2(r),str(e),str(b)])(g_u64(r),r.choice([0,1,64,63,r.randrange(65)])),expect(lambda a,e,b:pw2(a,int(e)&((1<<int(b))-1))))
OPS['fp2.pow_u64_vartime']=Op('fp2.pow_u64_vartime',lambda r:[EL2(r),str(g_u64(r))],expect(lambda a,e:pw2(a,int(e))))
# ---- Fp2
bin2('fp2.add',B2,add2)
bin2('fp2.sub',B2,sub2)
bin2('fp2.mul',B2,lambda a,b:scale2(mul2(a,b),RINV))
bin2('fp2.neg',B1,neg2)
bin2('fp2.square',B1,lambda a:scale2(mul2(a,a),RINV))
bin2('fp2.conj',B1,lambda a:(a[0],-a[1]%P))
bin2('fp2.half',B1,lambda a:scale2(a,HALF))
for _k in(2,3,4,8): bin2('fp2.mul%d'%_k,B1,lambda a,_k=_k:scale2(a,_k))
OPS['fp2.mul_small']=Op('fp2.mul_small',lambda r:[h2((int(g_small(r)[0],16),raw(r))),g_small(r)[1]],expect(lambda a,k:[h2(scale2(un2(a),int(k)))]))
def g_div2(r):
    x,y=el2(r),el2(r)
    if r.randrange(10)==0: y=(0,0)
    return [h2(x),h2(y)]
bin2('fp2.div',g_div2,lambda a,b:scale2(div2(a,b),R))
bin2('fp2.invert',B1,lambda a:scale2(inv2(a),R*R%P))
OPS['fp2.batch_invert']=Op('fp2.batch_invert',lambda r:[h2(r.choice([(0,0),el2(r),el2(r)])) for _ in range(r.choice([1,2,3,4,5]))],expect(lambda *a:[h2(scale2(inv2(un2(x)),R*R%P)) for x in a]))
OPS['fp2.batch_invert_n']=Op('fp2.batch_invert_n',lambda r:[EL2(r),str(r.choice([1,2,3,50,199,200,201,399,400,401,r.randrange(1,600)])),str(r.choice([0,1,2,3,7]))],expect(lambda *a:['good']))
OPS['fp2.legendre']=Op('fp2.legendre',B1,expect(lambda a:[str(chi2(un2(a)))]))
OPS['fp2.iszero']=Op('fp2.iszero',lambda r:[h2(r.choice([(0,0),el2(r)]))],expect(lambda a:['ffffffff' if un2(a)==(0,0) else '0']))
def g_eq2(r):
    x=g_eq(r); y=g_eq(r); return [x[0]+','+y[0],x[1]+','+y[1]]
OPS['fp2.equals']=Op('fp2.equals',g_eq2,expect(lambda a,b:['ffffffff','true'] if un2(a)==un2(b) else ['0','false']))
def g2ctl(r): return B2(r)+[str(r.randrange(2))]
OPS['fp2.select']=Op('fp2.select',g2ctl,expect(lambda a,b,c:[b if c=='1' else a]))
OPS['fp2.set_cond']=Op('fp2.set_cond',g2ctl,expect(lambda a,b,c:[b if c=='1' else a]))
OPS['fp2.set_condneg']=Op('fp2.set_condneg',lambda r:B1(r)+[str(r.randrange(2))],expect(lambda a,c:[h2(neg2(un2(a))) if c=='1' else a]))
OPS['fp2.condswap']=Op('fp2.condswap',g2ctl,expect(lambda a,b,c:[b,a] if c=='1' else [a,b]))
OPS['fp2.encode']=Op('fp2.encode',B1,expect(lambda a:[le(unmont(un2(a)[0]),ENC)+le(unmont(un2(a)[1]),ENC)]))
def g_dec2(r):
    if r.randrange(5)==0:
        n=r.choice([0,1,ENC,2*ENC-1,2*ENC+1]); return le(r.randrange(1<<(8*n)) if n else 0,n)
    while True:
        a,b=g_dec1(r),g_dec1(r)
        if blen(a)==ENC and blen(b)==ENC: return a+b
def o_dec2(b):
    if blen(b)!=2*ENC: return ['0,0','0']
    x,y=bval(b[:2*ENC]),bval(b[2*ENC:])
    return [h2((mont(x),mont(y))),'ffffffff'] if x<P and y<P else ['0,0','0']
OPS['fp2.decode']=Op('fp2.decode',lambda r:[g_dec2(r)],expect(o_dec2))
def o_sqrt2(fourth):
    def o(args,out):
        a=u2(args[0])
        if out[0]!='ok': return 'no result: '+str(out)
        rw=un2(out[1][0])
        if rw[0]>=P or rw[1]>=P: return 'not canonical'
        y=(unmont(rw[0]),unmont(rw[1])); c=out[1][1]
        s=sqrt2(a)
        ok=s is not None
        if ok and fourth: ok=sqrt2(s) is not None or sqrt2(neg2(s)) is not None
        if not ok: return None if (y==(0,0) and c=='0') else 'no root exists: expected (0, 0), got %s, %s'%(out[1][0],c)
        if c!='ffffffff': return 'root exists but failure reported'
        if pow2(y,4 if fourth else 2)!=a: return 'not a root'
        if not fourth and ((y[0]!=0 and y[0]&1) or (y[0]==0 and y[1]&1)): return 'sign convention violated'
        return None
    return o
def g_sq2(r):
    a=u2(EL2(r)); k=r.randrange(5)
    if k<3: a=pow2(a,[2,4,2][k])
    if k==4: a=sub2((0,0),pow2(a,4))
    return [h2(m2(a))]
OPS['fp2.sqrt']=Op('fp2.sqrt',g_sq2,o_sqrt2(False))
OPS['fp2.fourth_root']=Op('fp2.fourth_root',g_sq2,o_sqrt2(True))

CHUNK={}
KNOWN={}
def search(native,name,n,seed,log=None,timeout=300):
    """first failing input of one operation among n generated ones"""
    o=OPS[name]; r=random.Random('%s/%s'%(seed,name))
    args=[]; seen=set()
    for _ in range(n): args.append(o.gen(r))
    outs=native.batch([' '.join([name]+a) for a in args],timeout)
    for a,out in zip(args,outs):
        if out[0] in('noop','skipped'): continue
        try: m=o.oracle(a,out)
        except Exception as e: m='oracle error %r on %r'%(e,out)
        if m: return dict(op=name,args=a,observed=[out[0]]+out[1],message=m),len(args),len(set(map(tuple,args)))
    return None,len(args),len(set(map(tuple,args)))
import conc_ec
import conc_int
import conc_ser
import conc_iso
import conc_pair
import conc_isog
import conc_theta
