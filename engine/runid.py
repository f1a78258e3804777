import sys,time; sys.path.insert(0,'/verif/engine')
import os,mir,importlib,spec
from obl import *
from registry import PROPS
from collections import Counter
c=mir.Crate(open(os.environ.get('MIR') or '/tmp/mirt/lib2.mir').read())
for pid in (sys.argv[1] if sys.argv[1]!="all" else "C01,C02,C03,C04,C05,C08,C09,C10,C11,C12,C13,C14,C16,C17,C18,C20").split(","):
    obs=[]
    for m,f in PROPS[pid]['obligations']: obs+=getattr(importlib.import_module(m),f)(c)
    obs=[o for o in obs if o.native is None and o.tier!='thorough']
    if len(sys.argv)>2: obs=[o for o in obs if any(s in o.name for s in sys.argv[2:])]
    t=time.time(); 
    def log(o,r):
        if r.status!='proved' : print('  ',o.name,r.status,'%.1f'%r.time,r.vcs,r.paths,r.detail[:500].replace('\n',' '))
    rs=run_all(Env(c,spec),obs,8,time.time()+620,log)
    print(pid,dict(Counter(r.status for r in rs)),'%.1f'%(time.time()-t),'slowest',sorted([(round(r.time,1),r.name) for r in rs])[-2:],flush=True)
