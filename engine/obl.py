"""Obligations, their execution in a pool of workers, and their results."""
import time,signal,traceback,multiprocessing as mp,os,sys
from interp import *
import stdmodel

class Result:
    def __init__(self,name,fn,backend):
        self.name=name; self.fn=fn; self.backend=backend
        self.status='unproved'; self.detail=''; self.time=0.0
        self.vcs=0; self.paths=0; self.inlined=[]; self.models=[]; self.contracts=[]
        self.witness=None; self.bound=None; self.search=None
    def asdict(self): return dict(self.__dict__)

class Ob:
    """one named obligation:  run(env,res) fills res (vcs, paths) and
       raises/returns: returns list of (label, verdict, info); verdict True/False/None"""
    def __init__(self,prop,name,fn,backend,run,search=(),timeout=300,bound=None,tier="quick",weight=1,native=None,fallback=False):
        self.fallback=fallback
        self.prop=prop; self.name=name; self.fn=fn; self.backend=backend; self.run=run
        self.search=search; self.timeout=timeout; self.bound=bound; self.tier=tier; self.weight=weight; self.native=native

class Missing(Exception): pass
class Unproved(Unsupported):
    """the precondition of a contract could not be established (the code may still be right)"""
class Timeout(Exception): pass

class Env:
    def __init__(self,crate,spec):
        self.crate=crate; self.spec=spec
    def fn(self,name):
        f=self.crate.get(name)
        if f is None: raise Missing(name)
        return f

ENV=None
OBS=None

def note(res,ctx):
    res.inlined=sorted(set(res.inlined)|ctx.inlined)
    res.models=sorted(set(res.models)|ctx.models)
    res.contracts=sorted(set(res.contracts)|ctx.used_contracts)

def _alarm(*a): raise Timeout()

def run_one(i):
    from limb import Refutable
    ob=OBS[i]
    res=Result(ob.name,ob.fn,ob.backend)
    res.bound=ob.bound
    t=time.time()
    signal.signal(signal.SIGALRM,_alarm); signal.alarm(int(ob.timeout))
    try:
        if ob.fn: ENV.fn(ob.fn)
        checks=ob.run(ENV,res)
        bad=[c for c in checks if c[1] is False]; unk=[c for c in checks if c[1] is None]
        res.vcs+=len(checks)
        if not checks and res.vcs==0: res.status='unsupported'; res.detail='no verification condition was generated'
        elif bad: res.status='refuted'; res.detail='; '.join('%s: %s'%(c[0],c[2] if len(c)>2 else '') for c in bad[:4])
        elif unk: res.status='unproved'; res.detail='; '.join('%s: %s'%(c[0],c[2] if len(c)>2 else '') for c in unk[:4])
        else: res.status='proved'
        for c in bad+unk:
            if len(c)>3 and c[3] is not None and res.witness is None: res.witness=c[3]
    except Missing as e: res.status='missing'; res.detail='function not found: %s'%e
    except Refuted as e: res.status='refuted'; res.detail=e.msg[:300]
    except Unsupported as e: res.status='unsupported'; res.detail=str(e)[:300]
    except Refutable as e: res.status='unproved'; res.detail=str(e)[:300]
    except Timeout: res.status='timeout'; res.detail='%ds'%ob.timeout
    except RecursionError as e: res.status='unsupported'; res.detail='recursion'
    except MemoryError: res.status='unsupported'; res.detail='memory'
    except Exception as e:
        res.status='unsupported'; res.detail='engine: '+''.join(traceback.format_exception_only(type(e),e)).strip()[:200]+' '+traceback.format_exc(limit=-3)[-600:]
    finally: signal.alarm(0)
    res.time=time.time()-t
    return i,res

def run_all(env,obs,procs=8,deadline=None,log=None):
    global ENV,OBS
    ENV=env; OBS=obs
    order=sorted(range(len(obs)),key=lambda i:-obs[i].weight)
    out=[None]*len(obs)
    if not obs: return out
    with mp.get_context('fork').Pool(min(procs,len(obs)),maxtasksperchild=20) as pool:
        it=pool.imap_unordered(run_one,order)
        n=0
        while n<len(obs):
            try:
                to=None if deadline is None else max(1,deadline-time.time())
                i,r=it.next(timeout=to)
            except mp.TimeoutError: break
            except StopIteration: break
            out[i]=r; n+=1
            if log: log(obs[i],r)
        pool.terminate()
    for i,ob in enumerate(obs):
        if out[i] is None:
            r=Result(ob.name,ob.fn,ob.backend); r.status='timeout'; r.detail='global deadline'; out[i]=r
    return out
