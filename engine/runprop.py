import sys,time; sys.path.insert(0,'/verif/engine')
import mir,importlib,spec
from obl import *
c=mir.Crate(open(''+(__import__("os").environ.get("MIR") or "/tmp/mirt/lib2.mir")+'').read())
modn,fn=sys.argv[1].split('.')
obs=getattr(importlib.import_module(modn),fn)(c)
if len(sys.argv)>2: obs=[o for o in obs if any(s in o.name for s in sys.argv[2:])]
t=time.time()
def log(o,r): 
    if r.status!='proved' or len(sys.argv)>2 : print(o.name,r.status,'%.1f'%r.time,r.vcs,r.paths,r.detail[:700])
rs=run_all(Env(c,spec),obs,8,None,log)
from collections import Counter
print(Counter(r.status for r in rs),'%.1f'%(time.time()-t), 'slowest',sorted([(round(r.time,1),r.name) for r in rs])[-4:])
