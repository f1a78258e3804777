"""Liveness of MIR locals (used to compare machine states at loop heads)."""
from mir import Place,parse_body
def _places(x,out):
    if isinstance(x,Place):
        out.add(x.local)
        for p in x.projs: _places(p,out) if isinstance(p,(Place,tuple,list)) else None
        # index projections hold a local number or name
        for p in x.projs:
            if isinstance(p,tuple) and p and p[0]=='index': 
                i=p[1]
                out.add(i.local if isinstance(i,Place) else i)
    elif isinstance(x,(tuple,list)):
        for y in x: _places(y,out)
_C={}
_S={}
def live_out(f,b):
    """locals that may be read while or after the call that ends block b"""
    li=live_in(f); o=set(li[b])
    for s in _S[f.name][b]: o|=li.get(s,set())
    return o
def live_in(f):
    """block -> set of locals whose value may still be read"""
    if f.name in _C: return _C[f.name]
    if f.blocks is None: parse_body(f)
    use={}; deff={}; succ={}
    addr=set()
    for b,sts in f.blocks.items():
        u=set(); d=set(); sc=[]
        for st in sts:
            k=st[0]; r=set(); w=None
            if k=='assign':
                _places(st[2],r); 
                if st[1].projs: _places(st[1],r)
                else: w=st[1].local
                if st[2][0]=='ref': addr.add(st[2][1].local)
            elif k=='call':
                _places(st[3],r); _places(st[2],r) if not isinstance(st[2],str) else None
                if isinstance(st[2],str) and '_' in st[2] and st[2].startswith(('move ','copy ')): r.add(None)
                if st[1].projs: _places(st[1],r)
                else: w=st[1].local
                if st[4] is not None: sc.append(st[4])
            elif k=='switch':
                _places(st[1],r); sc+=[c[1] for c in st[2]]+([st[3]] if st[3] is not None else [])
            elif k=='assert':
                _places(st[1],r); sc.append(st[4])
            elif k=='goto': sc.append(st[1])
            elif k=='return': r.add(0)
            u|=r-d
            if w is not None: d.add(w)
        use[b]=u; deff[b]=d; succ[b]=sc
    li={b:set(u) for b,u in use.items()}
    ch=True
    while ch:
        ch=False
        for b in f.blocks:
            o=set()
            for s in succ[b]: o|=li.get(s,set())
            n=use[b]|(o-deff[b])
            if n-li[b]: li[b]|=n; ch=True
    _C[f.name]=li; _S[f.name]=succ
    return li
