"""Build and talk to the native replay harness (/verif/harness, path dependency on /repo)."""
import subprocess,os,threading,time
VERIF=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD=os.path.join(VERIF,'.build')
def env():
    e=dict(os.environ); e['CARGO_NET_OFFLINE']='true'; e.pop('RUSTFLAGS',None)
    return e
class Harness:
    """cargo build in the background; `get()` waits"""
    def __init__(self):
        self.err=None; self.path=None; self.t0=time.time(); self.built=None
        self.th=threading.Thread(target=self._build,daemon=True); self.th.start()
    def _build(self):
        e=env(); e['CARGO_TARGET_DIR']=os.path.join(BUILD,'harness')
        try:
            r=subprocess.run(['cargo','build','--offline','--locked','-q'],cwd=os.path.join(VERIF,'harness'),env=e,stdin=subprocess.DEVNULL,capture_output=True,text=True,timeout=600)
            if r.returncode: self.err=r.stderr[-3000:]
            else: self.path=os.path.join(BUILD,'harness','debug','harness')
        except Exception as x: self.err=str(x)
        self.built=time.time()-self.t0
    def get(self):
        self.th.join(); return self.path
class Native:
    def __init__(self,path): self.path=path
    def batch(self,lines,timeout=300):
        """lines -> list of (kind, fields)"""
        inp='\n'.join(lines)+'\n'
        p=subprocess.Popen([self.path],stdin=subprocess.PIPE,stdout=subprocess.PIPE,stderr=subprocess.DEVNULL,text=True)
        try: out,_=p.communicate(inp,timeout=timeout)
        except subprocess.TimeoutExpired:
            p.kill(); out,_=p.communicate()
        res=[]
        for l in out.splitlines():
            t=l.split(' ')
            res.append((t[0],[x for x in t[1:] if x] if t[0]=='ok' else [' '.join(t[1:])]))
        while len(res)<len(lines): res.append(('dead',['no answer (crash or timeout)'])) if len(res)<len(lines) and (not res or res[-1][0]!='dead') else res.append(('skipped',['']))
        return res
    def call(self,op,*args): return self.batch([' '.join([op]+list(args))])[0]
