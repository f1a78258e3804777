"""Loop invariants.  A loop of the function under verification is cut at its header: on first arrival the invariant is
checked and every memory leaf the loop may change is replaced by an arbitrary value satisfying the invariant; on the
second arrival the invariant is checked again and the path ends.  The set of changed leaves is found by iteration to a
fixed point (a leaf not in the set must come back unchanged on every path).  Invariants are sets of candidate
predicates; candidates that do not hold initially or are not preserved are removed until the rest is inductive
(Houdini), so a proof does not depend on the names or the arrangement of the program's variables."""
import mir as mirmod
from interp import *
from interp import BoxVal,UNINIT

def succs(sts):
    out=[]
    for st in sts:
        k=st[0]
        if k=='goto': out.append(st[1])
        elif k=='switch': out+=[tb for _,tb in st[2]]+[st[3]]
        elif k in('assert','call'): out.append(st[4])
    return [b for b in out if b is not None]
def headers(f):
    """targets of back edges (edges into a dominator)"""
    if f.blocks is None: mirmod.parse_body(f)
    S={b:succs(s) for b,s in f.blocks.items()}
    reach=[];seen=set();st=[0]
    while st:
        b=st.pop()
        if b in seen or b not in S: continue
        seen.add(b); reach.append(b); st+=S[b]
    pred={b:[] for b in seen}
    for b in seen:
        for t in S[b]:
            if t in pred: pred[t].append(b)
    dom={b:set(seen) for b in seen}; dom[0]={0}
    ch=True
    while ch:
        ch=False
        for b in seen:
            if b==0: continue
            n=set.intersection(*[dom[q] for q in pred[b]])|{b}
            if n!=dom[b]: dom[b]=n; ch=True
    return {t for b in seen for t in S[b] if t in dom[b]}

class Dead(Opaque): pass
DEAD=Dead('value left from an earlier iteration')
class LoopEnd(Infeasible): pass
class Restart(Exception): pass

def shape(v):
    if isinstance(v,tuple): return ('t',len(v),v[0] if v and isinstance(v[0],str) else None)
    if isinstance(v,VecVal): return ('v',len(v.items))
    if isinstance(v,Enum): return ('e',v.idx,v.name,len(v.fields))
    if isinstance(v,Closure): return ('c',v.name,len(v.caps))
    if isinstance(v,Ref): return ('r',id(v.cell),v.projs,v.meta)
    if isinstance(v,BoxVal): return ('b',id(v.cell))
    return None
def kids(v):
    if isinstance(v,tuple): return v
    if isinstance(v,VecVal): return v.items
    if isinstance(v,Enum): return v.fields
    if isinstance(v,Closure): return v.caps
    return ()
def collect(frame):
    out={}; seen=set()
    def w(v,key):
        s=shape(v); out[key]=(s,v)
        for i,x in enumerate(kids(v)): w(x,key+(i,))
        if isinstance(v,(Ref,BoxVal)) and id(v.cell) not in seen:
            seen.add(id(v.cell)); w(v.cell.v,key+('*',))
    for l in sorted(frame,key=str): seen.add(id(frame[l].v))
    own={id(c) for c in frame.values()}; seen=set(own)
    for l in sorted(frame,key=str): w(frame[l].v,(l,))
    return out
def rewrite(frame,f):
    """f(key,value) -> replacement or None"""
    seen={id(c) for c in frame.values()}
    def w(v,key):
        r=f(key,v)
        if r is not None: return r
        k=kids(v)
        if k:
            n=tuple(w(x,key+(i,)) for i,x in enumerate(k))
            if isinstance(v,VecVal): v=VecVal(n)
            elif isinstance(v,Enum): v=Enum(v.idx,v.name,n)
            elif isinstance(v,Closure): v=Closure(v.name,n)
            else: v=n
        if isinstance(v,(Ref,BoxVal)) and id(v.cell) not in seen:
            seen.add(id(v.cell)); v.cell.v=w(v.cell.v,key+('*',))
        return v
    for l in sorted(frame,key=str): frame[l].v=w(frame[l].v,(l,))
def same(a,b):
    if a is b: return True
    if type(a)!=type(b): return False
    if isinstance(a,(int,bool,str)): return a==b
    try: return bool(a.same(b))
    except AttributeError: pass
    try: return a==b
    except Exception: return False

class Loop:
    def __init__(self): self.mod={}; self.cands=None; self.dropped=set(); self.rounds=0; self.measure=None
class LoopProof:
    """templates(ctx,vals) -> [candidate]; a candidate has .name, .holds(ctx,vals), .assume(ctx,vals)"""
    def __init__(self,env,fn,mkdom,mkargs,templates,want=None,max_rounds=80,max_paths=400,measures=None):
        self.env=env; self.f=fn; self.mkdom=mkdom; self.mkargs=mkargs; self.templates=templates
        self.want=want; self.loops={}; self.max_rounds=max_rounds; self.max_paths=max_paths; self.measures=measures; self.paths=0; self.vcs=0
    def hook(self,ctx,f,bb,frame):
        if f is not self.f or ctx.depth!=1 or bb not in self.hs: return
        L=self.loops.setdefault(bb,Loop())
        snap=collect(frame)
        if bb not in ctx.arrived:
            ctx.arrived[bb]=True
            for k,m in L.mod.items():
                if m=='val' and (k not in snap or ctx.dom.fresh_like(ctx,'?',snap[k][1]) is None):
                    L.mod[k]='dead'; L.cands=None; raise Restart()
            vals={k:snap[k][1] for k,m in L.mod.items() if m=='val'}
            if L.cands is None:
                L.cands=[c for c in self.templates(ctx,vals,bb) if c.name not in L.dropped]
            bad=[]
            for c in L.cands:
                self.vcs+=1
                if not c.holds(ctx,vals,True): bad.append(c)
            if bad:
                for c in bad: L.dropped.add(c.name)
                L.cands=[c for c in L.cands if c.name not in L.dropped]; raise Restart()
            new={}
            def f2(key,v):
                m=L.mod.get(key)
                if m is None: return None
                if m=='dead': return DEAD
                r=ctx.dom.fresh_like(ctx,'%d:%s'%(bb,'.'.join(map(str,key))),v)
                if r is None: L.mod[key]='dead'; raise Restart()
                new[key]=r; return r
            rewrite(frame,f2)
            # leaves below a dead reference keep their old value nowhere
            ctx.pre[bb]=collect(frame); ctx.vals[bb]=new
            for c in L.cands: c.assume(ctx,new)
            return
        pre=ctx.pre[bb]; changed=False
        deadp=[k for k,m in L.mod.items()]
        under=lambda key: any(key[:len(d)]==d for d in deadp)
        for key in set(pre)|set(snap):
            if under(key): continue
            a,b=pre.get(key),snap.get(key)
            if a is not None and b is not None and a[0]==b[0] and (a[0] is not None or same(a[1],b[1])): continue
            if a is None or b is None:
                # a parent changed shape, it is handled there
                continue
            if ctx.dom.fresh_like(ctx,'?',b[1]) is not None and ctx.dom.fresh_like(ctx,'?',a[1]) is not None: L.mod[key]='val'
            else: L.mod[key]='dead'
            changed=True
        for key,m in list(L.mod.items()):
            if m=='val' and (key not in snap or ctx.dom.fresh_like(ctx,'?',snap[key][1]) is None):
                L.mod[key]='dead'; changed=True
        if changed:
            for M in self.loops.values(): M.cands=None; M.dropped=set()
            raise Restart()
        vals={k:snap[k][1] for k,m in L.mod.items() if m=='val'}
        bad=[]
        for c in L.cands:
            self.vcs+=1
            if not c.holds(ctx,vals,False): bad.append(c)
        # values described by a wrong template may break other candidates: drop the templates first
        first=[c for c in bad if getattr(c,'first',False)]
        if first: bad=first
        if bad:
            for c in bad: L.dropped.add(c.name)
            L.cands=[c for c in L.cands if c.name not in L.dropped]; raise Restart()
        if self.measures:
            ms=[m for m in (L.measure if L.measure is not None else self.measures(ctx,ctx.vals[bb],bb))]
            ok=[m for m in ms if m.decreases(ctx,ctx.vals[bb],vals)]
            L.measure=ok
            if not ok: self.noterm.append(bb)
        raise LoopEnd()
    def run(self):
        self.hs=headers(self.f) if self.want is None else self.want(self.f)
        for rnd in range(self.max_rounds):
            try: return self.once()
            except Restart: continue
        raise Unsupported('no inductive invariant found in %d rounds'%self.max_rounds)
    def once(self):
        outs=[]; self.noterm=[]
        for L in self.loops.values(): L.measure=None
        def md():
            d=self.mkdom(); d.block_hook=self.hook; return d
        def ma(ctx):
            ctx.arrived={}; ctx.pre={}; ctx.vals={}
            return self.mkargs(ctx)
        for o in explore(self.env.crate,md,self.f,ma,max_paths=self.max_paths): outs.append(o)
        self.invariants={bb:[c.name for c in L.cands or []] for bb,L in self.loops.items()}
        return outs
