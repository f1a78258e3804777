"""Oracles for the serialisation of keys, ciphertexts and inputs."""
from conc_int import *
from conc_ec import rA,r2,w2,g2,wpt,rpt_
BY=(P.bit_length()+7)//8
def e2(x): return (x[0]%P).to_bytes(BY,'little')+(x[1]%P).to_bytes(BY,'little')
def rscal(r):
    k=r.choice([0,1,2,80,81,82,r.randrange(83)])
    return 0 if k==0 else r.choice([r.randrange(1<<(8*k-8),1<<8*k),1<<(8*k-8),(1<<8*k)-1])
def rxy(r): return (r2(r),r2(r))
def g_out(r): return [w2(rA(r)),wpt(r,rxy(r)),wpt(r,rxy(r)),w2(rA(r)),wpt(r,rxy(r)),wpt(r,rxy(r))]
def g_key(r): return [w2(rA(r))]+[wpt(r,rxy(r)) for _ in range(4)]+['%x'%rscal(r),'%x'%rscal(r)]
def cmp_(args,got,enc):
    want=b''
    for i,a in enumerate(args):
        if ';' in a:
            p=rpt_(a); want+=e2(p[0])+e2(p[1])
            if rpt_(got[i])!=p: return 'point %d changed'%i
        elif ',' in a:
            want+=e2(g2(a))
            if g2(got[i])!=g2(a): return 'curve %d changed'%i
        else:
            want+=un_(a).to_bytes(82,'little')
            if un_(got[i])!=un_(a): return 'scalar %d changed'%i
    if enc is not None and enc!=want.hex():
        return 'encoding is %d bytes instead of %d'%(len(enc)//2,len(want)) if len(enc)!=2*len(want) else 'bytes differ at %d'%next(i//2 for i in range(len(enc)) if enc[i]!=want.hex()[i])
def o_rt(args,out):
    if out[0]!='ok': return str(out)
    return cmp_(args,out[1][1:],out[1][0])
OPS['se.out']=Op('se.out',g_out,o_rt)
OPS['se.key']=Op('se.key',g_key,o_rt)
OPS['se.pk']=Op('se.pk',lambda r:[w2(rA(r)),wpt(r,rxy(r)),wpt(r,rxy(r))],lambda args,out:cmp_(args,out[1],None) if out[0]=='ok' else str(out))
def g_inp(r):
    a=[rscal(r) for _ in range(4)]; b=list(a)
    for i in range(4):
        if r.randrange(4)==0: b[i]=r.choice([rscal(r),a[i]+1,a[r.randrange(4)]])
    return ['%x'%x for x in a+b]
def o_inp(args,out):
    if out[0]!='ok': return str(out)
    if out[1][0]!=('true' if args[:4]==args[4:] else 'false'): return 'equality is wrong'
    if [un_(x) for x in out[1][1:]]!=[un_(x) for x in args[:4]]: return 'values changed'
OPS['se.inp']=Op('se.inp',g_inp,o_inp)
