"""Further std models (same conventions as stdmodel): the parts of core/alloc that ordinary refactorings of the
crate would reach for."""
import re
from interp import *
from stdmodel import model,deref,derefall,elem_ref,slice_of,mkiter,isit,it_next,it_back,it_len,drain,range_elem,m_into_iter,INTPAT,bigop,m_big2,BIG

def split_generics(s):
    out=[]; d=0; cur=''
    for i,ch in enumerate(s):
        if ch in '<([{': d+=1
        elif ch in ')]}' or (ch=='>' and s[i-1] not in '-='): d-=1
        if ch==',' and d==0: out.append(cur.strip()); cur=''
        else: cur+=ch
    if cur.strip(): out.append(cur.strip())
    return out
def strip_ref(t):
    t=t.strip()
    while t.startswith('&'):
        t=re.sub(r"^&('\w+ )?(mut )?",'',t).strip()
    return t
def notv(ctx,v): return (not v) if isinstance(v,bool) else ctx.dom.bnot(ctx,v)
def eq_val(ctx,ty,x,y):
    """x == y for values of type ty (may fork); a Python bool"""
    ty=strip_ref(ty); x=derefall(ctx,x); y=derefall(ctx,y)
    if ty in INT_TYPES or ty in('bool','char'): return ctx.truth(ctx.binop('Eq',ty,x,y),'eq')
    if ty.startswith('('):
        for t,a,b in zip(split_generics(ty[1:-1]),x,y):
            if not eq_val(ctx,t,a,b): return False
        return True
    m=re.match(r'\[(.*?)(; [^;\]]*)?\]$',ty) or re.match(r'(?:std|alloc)::vec::Vec<(.*)>()$',ty) or re.match(r'std::boxed::Box<\[(.*)\]>()$',ty)
    if m:
        p,q=ctx.seq(x),ctx.seq(y)
        if len(p)!=len(q): return False
        for a,b in zip(p,q):
            if not eq_val(ctx,m.group(1),a,b): return False
        return True
    m=re.match(r'std::option::Option<(.*)>$',ty)
    if m and isinstance(x,Enum) and isinstance(y,Enum):
        if x.name!=y.name: return False
        return x.name=='None' or eq_val(ctx,m.group(1),x.fields[0],y.fields[0])
    if isinstance(x,Enum) and isinstance(y,Enum) and not x.fields and not y.fields: return x.idx==y.idx
    return ctx.truth(ctx.call('<%s as std::cmp::PartialEq>::eq'%ty,[Ref(Cell(x)),Ref(Cell(y))],['&'+ty,'&'+ty],None,'bool'),'eq')
@model(r'<.* as std::cmp::PartialEq(<.*>)?>::(eq|ne)$')
def m_eqgen(ctx,c,a,t,rt):
    m=re.match(r'<(.*) as std::cmp::PartialEq(?:<(.*)>)?>::(eq|ne)$',c)
    ty=strip_ref(m.group(1))
    if m.group(3)=='eq':
        if re.match(r'[\[(]|std::|alloc::|core::',ty): return eq_val(ctx,ty,a[0],a[1])
        # derived or user-written eq that the crate does not define for these types
        x=derefall(ctx,a[0])
        if c.startswith('<&'):
            y=derefall(ctx,a[1]); return eq_val(ctx,ty,x,y)
        raise Unsupported('no model: '+c)
    if re.match(r'[\[(]|std::|alloc::|core::|&',m.group(1)): return not eq_val(ctx,ty,a[0],a[1])
    return notv(ctx,ctx.call('<%s as std::cmp::PartialEq%s>::eq'%(m.group(1),'<%s>'%m.group(2) if m.group(2) else ''),a,t,None,'bool'))
@model(r'<(\{closure.*\}|.*\{closure#.*|&.*|fn.*|F|impl .*) as std::ops::(Fn|FnMut|FnOnce)<.*>>::call(_mut|_once)?$')
def m_callclo(ctx,c,a,t,rt):
    f=derefall(ctx,a[0]); return ctx.call_closure(f,list(a[1]))

# ---------------------------------------------------------------- iterators
@model(r'(core|std)::slice::<impl \[.*\]>::chunks(_exact)?_mut$')
def m_chunksmut(ctx,c,a,t,rt):
    s=slice_of(ctx,a[0]); n=s.meta[1]
    if 'exact' in c: n-=n%a[1]
    return mkiter('chunks',s,0,n,a[1])
@model(r'(core|std)::slice::<impl \[.*\]>::rchunks(_exact)?(_mut)?$')
def m_rchunks(ctx,c,a,t,rt):
    s=slice_of(ctx,a[0]); n=s.meta[1]; z=a[1]; b=s.meta[0]; out=[]
    while n>0:
        k=min(z,n)
        if k<z and 'exact' in c: break
        out.append(Ref(s.cell,s.projs,(b+n-k,k))); n-=k
    return mkiter('vec',tuple(out),0)
@model(r'(core|std)::slice::<impl \[.*\]>::windows$')
def m_windows(ctx,c,a,t,rt):
    s=slice_of(ctx,a[0]); b,n=s.meta
    return mkiter('vec',tuple(Ref(s.cell,s.projs,(b+i,a[1])) for i in range(n-a[1]+1)),0)
@model(r'<.* as std::iter::Iterator>::chain::<')
def m_chain(ctx,c,a,t,rt): return mkiter('chain',a[0],m_into_iter(ctx,'',[a[1]],t,rt))
@model(r'<.* as std::iter::Iterator>::by_ref$')
def m_byref(ctx,c,a,t,rt): return a[0]
@model(r'std::iter::zip::<')
def m_itzip(ctx,c,a,t,rt): return mkiter('zip',m_into_iter(ctx,'',[a[0]],t,rt),m_into_iter(ctx,'',[a[1]],t,rt))
@model(r'std::iter::once::<')
def m_once(ctx,c,a,t,rt): return mkiter('vec',(a[0],),0)
@model(r'std::iter::repeat::<')
def m_repeat(ctx,c,a,t,rt): return mkiter('repeat',a[0])
@model(r'std::iter::(from_fn|successors)::<')
def m_fromfn(ctx,c,a,t,rt): return mkiter('fromfn',a[0]) if 'from_fn' in c else mkiter('succ',a[0],a[1])
@model(r'<.* as std::iter::Iterator>::(take_while|skip_while|filter_map|inspect|flat_map|scan|map_while)::<')
def m_itad(ctx,c,a,t,rt):
    k=re.search(r'Iterator>::(\w+)::<',c).group(1)
    if k=='scan': return mkiter('scan',a[0],Cell(a[1]),a[2])
    if k=='skip_while': return mkiter('skip_while',a[0],a[1],False)
    if k=='flat_map': return mkiter('flat_map',a[0],a[1],None)
    return mkiter(k,a[0],a[1])
@model(r'<.* as std::iter::Iterator>::(nth)$|<.* as std::iter::DoubleEndedIterator>::nth_back$')
def m_nth(ctx,c,a,t,rt):
    it=ctx.load(a[0]); f=it_back if c.endswith('back') else it_next; o=NONE
    for _ in range(a[1]+1):
        o,it=f(ctx,it,range_elem(c))
        if o.idx==0: break
    ctx.store(a[0],it); return o
@model(r'<.* as std::iter::(ExactSizeIterator)>::len$')
def m_itlen(ctx,c,a,t,rt): return it_len(ctx,derefall(ctx,a[0]))
@model(r'<.* as std::iter::Iterator>::unzip::<')
def m_unzip(ctx,c,a,t,rt):
    x=[]; y=[]
    for p in drain(ctx,a[0],range_elem(c)): x.append(p[0]); y.append(p[1])
    return (VecVal(tuple(x)),VecVal(tuple(y)))
@model(r'<.* as std::iter::Iterator>::partition::<')
def m_partition(ctx,c,a,t,rt):
    x=[]; y=[]
    for p in drain(ctx,a[0],range_elem(c)): (x if ctx.truth(ctx.call_closure(a[1],[Ref(Cell(p))]),'partition') else y).append(p)
    return (VecVal(tuple(x)),VecVal(tuple(y)))
@model(r'<.* as std::iter::Iterator>::(reduce|find_map|rfold)::<')
def m_reduce(ctx,c,a,t,rt):
    op=re.search(r'Iterator>::(\w+)::<',c).group(1)
    if op=='find_map':
        it=derefall(ctx,a[0])
        while True:
            o,it=it_next(ctx,it,range_elem(c))
            if isinstance(a[0],Ref): ctx.store(a[0],it)
            if o.idx==0: return NONE
            r=ctx.call_closure(a[1],[o.fields[0]])
            if r.name=='Some': return r
    acc=None
    for x in drain(ctx,a[0],range_elem(c)): acc=x if acc is None else ctx.call_closure(a[1],[acc,x])
    return NONE if acc is None else Some(acc)
@model(r'<.* as std::iter::DoubleEndedIterator>::(rfold|rfind|rposition)::<')
def m_rfold(ctx,c,a,t,rt):
    if '::rfold::<' in c:
        acc=a[1]
        for x in drain(ctx,mkiter('rev',a[0]),range_elem(c)): acc=ctx.call_closure(a[2],[acc,x])
        return acc
    for x in drain(ctx,mkiter('rev',derefall(ctx,a[0])),range_elem(c)):
        if ctx.truth(ctx.call_closure(a[1],[Ref(Cell(x))]),'rfind'): return Some(x)
    return NONE
@model(r'<.* as std::iter::(Iterator|ExactSizeIterator)>::(rposition)::<')
def m_rpos(ctx,c,a,t,rt):
    it=derefall(ctx,a[0]); n=it_len(ctx,it)
    for i,x in enumerate(drain(ctx,mkiter('rev',it),range_elem(c))):
        if ctx.truth(ctx.call_closure(a[1],[x]),'rposition'): return Some(n-1-i)
    return NONE
@model(r'<.* as std::iter::Iterator>::(max|min)$')
def m_itmax(ctx,c,a,t,rt):
    r=None; rv=None
    for x in drain(ctx,a[0],range_elem(c)):
        v=derefall(ctx,x)
        if not isinstance(v,int): raise Unsupported(c)
        if r is None or (v>=rv if c.endswith('max') else v<rv): r,rv=x,v
    return NONE if r is None else Some(r)
@model(r'<.* as std::iter::Iterator>::(max|min)_by_key::<')
def m_itmaxk(ctx,c,a,t,rt):
    r=None; rv=None
    for x in drain(ctx,a[0],range_elem(c)):
        v=derefall(ctx,ctx.call_closure(a[1],[Ref(Cell(x))]))
        if not isinstance(v,int): raise Unsupported(c)
        if r is None or (v>=rv if '::max' in c else v<rv): r,rv=x,v
    return NONE if r is None else Some(r)
@model(r'<.* as std::iter::Iterator>::(try_for_each|try_fold)::<')
def m_tryfold(ctx,c,a,t,rt):
    fold='try_fold' in c; acc=a[1] if fold else None; f=a[-1]
    it=derefall(ctx,a[0]); last=None
    while True:
        o,it=it_next(ctx,it,range_elem(c))
        if isinstance(a[0],Ref): ctx.store(a[0],it)
        if o.idx==0: break
        last=ctx.call_closure(f,([acc] if fold else [])+[o.fields[0]])
        if last.name in('None','Err'): return last
        if last.name not in('Some','Ok'): raise Unsupported(c)
        acc=last.fields[0]
    if not fold: acc=()
    if rt.startswith('std::option::Option'): return Some(acc)
    if rt.startswith('std::result::Result'): return Enum(0,'Ok',(acc,))
    raise Unsupported(c)
@model(r'<.* as std::iter::Iterator>::eq::<')
def m_iteq(ctx,c,a,t,rt):
    x=list(drain(ctx,a[0],range_elem(c))); y=list(drain(ctx,m_into_iter(ctx,'',[a[1]],t,rt),None))
    if len(x)!=len(y): return False
    for p,q in zip(x,y):
        p=derefall(ctx,p); q=derefall(ctx,q)
        if not ctx.truth(ctx.binop('Eq','u64',p,q),'eq'): return False
    return True
@model(r'<.* as std::iter::Iterator>::collect::<std::boxed::Box<\[')
def m_collectbox(ctx,c,a,t,rt): return BoxVal(Cell(tuple(drain(ctx,a[0],range_elem(c)))))
@model(r'<.* as std::iter::Iterator>::collect::<std::(option::Option|result::Result)<std::vec::Vec<')
def m_collectopt(ctx,c,a,t,rt):
    out=[]
    for x in drain(ctx,a[0],range_elem(c)):
        if x.name in('None','Err'): return x
        out.append(x.fields[0])
    v=VecVal(tuple(out)); return Some(v) if '<std::option' in c else Enum(0,'Ok',(v,))

def more_next(ctx,it,ety):
    k=it[0][5:]
    if k=='chain':
        if it[1] is not None:
            o,n=it_next(ctx,it[1],ety)
            if o.idx: return o,('iter:chain',n,it[2])
        o,n=it_next(ctx,it[2],ety); return o,('iter:chain',None,n)
    if k=='repeat': return Some(it[1]),it
    if k=='fromfn': return ctx.call_closure(it[1],[]),it
    if k=='succ':
        if it[1].name=='None': return NONE,it
        v=it[1].fields[0]; n=ctx.call_closure(it[2],[Ref(Cell(v))]); return Some(v),('iter:succ',n,it[2])
    if k in('take_while','map_while'):
        if it[1] is None: return NONE,it
        o,n=it_next(ctx,it[1],ety)
        if o.idx==0: return NONE,(it[0],n,it[2])
        if k=='map_while':
            r=ctx.call_closure(it[2],[o.fields[0]]); return r,(it[0],n,it[2])
        if ctx.truth(ctx.call_closure(it[2],[Ref(Cell(o.fields[0]))]),'take_while'): return o,(it[0],n,it[2])
        return NONE,(it[0],None,it[2])
    if k=='skip_while':
        n=it[1]
        while True:
            o,n=it_next(ctx,n,ety)
            if o.idx==0 or it[3] or not ctx.truth(ctx.call_closure(it[2],[Ref(Cell(o.fields[0]))]),'skip_while'): return o,(it[0],n,it[2],True)
    if k=='filter_map':
        n=it[1]
        while True:
            o,n=it_next(ctx,n,ety)
            if o.idx==0: return NONE,(it[0],n,it[2])
            r=ctx.call_closure(it[2],[o.fields[0]])
            if r.name=='Some': return r,(it[0],n,it[2])
    if k=='inspect':
        o,n=it_next(ctx,it[1],ety)
        if o.idx: ctx.call_closure(it[2],[Ref(Cell(o.fields[0]))])
        return o,(it[0],n,it[2])
    if k=='scan':
        o,n=it_next(ctx,it[1],ety)
        if o.idx==0: return NONE,(it[0],n,it[2],it[3])
        return ctx.call_closure(it[3],[Ref(it[2]),o.fields[0]]),(it[0],n,it[2],it[3])
    if k=='flat_map':
        n,cur=it[1],it[3]
        while True:
            if cur is not None:
                o,cur=it_next(ctx,cur,None)
                if o.idx: return o,(it[0],n,it[2],cur)
            o,n=it_next(ctx,n,ety)
            if o.idx==0: return NONE,(it[0],n,it[2],None)
            cur=m_into_iter(ctx,'',[ctx.call_closure(it[2],[o.fields[0]])],None,None)
    return None
def more_back(ctx,it,ety):
    k=it[0][5:]
    if k=='chunks':
        _,ref,i,n,sz=it
        if i>=n: return NONE,it
        r=(n-i)%sz or sz; b=ref.meta[0] if ref.meta else 0
        return Some(Ref(ref.cell,ref.projs,(b+n-r,r))),('iter:chunks',ref,i,n-r,sz)
    if k=='chain':
        o,n=it_back(ctx,it[2],ety)
        if o.idx or it[1] is None: return o,('iter:chain',it[1],n)
        o,m=it_back(ctx,it[1],ety); return o,('iter:chain',m,n)
    if k=='take':
        n=it_len(ctx,it[1]); x=it[1]
        while n>it[2]: _,x=it_back(ctx,x,ety); n-=1
        if n==0: return NONE,it
        o,x=it_back(ctx,x,ety); return o,('iter:take',x,n-1)
    if k=='skip':
        if it_len(ctx,it[1])<=it[2]: return NONE,it
        o,x=it_back(ctx,it[1],ety); return o,('iter:skip',x,it[2])
    if k=='filter':
        x=it[1]
        while True:
            o,x=it_back(ctx,x,ety)
            if o.idx==0 or ctx.truth(ctx.call_closure(it[2],[Ref(Cell(o.fields[0]))]),'filter'): return o,('iter:filter',x,it[2])
    if k=='stepby':
        l=[]; x=it
        while True:
            o,x=it_next(ctx,x,ety)
            if o.idx==0: break
            l.append(o.fields[0])
        if not l: return NONE,mkiter('vec',(),0)
        return Some(l[-1]),mkiter('vec',tuple(l[:-1]),0)
    return None
def more_len(ctx,it):
    k=it[0][5:]
    if k=='chunks':
        _,ref,i,n,sz=it; return (n-i+sz-1)//sz
    if k=='chain': return (it_len(ctx,it[1]) if it[1] is not None else 0)+it_len(ctx,it[2])
    if k=='skip': return max(0,it_len(ctx,it[1])-it[2])
    if k=='inspect': return it_len(ctx,it[1])
    if k=='stepby':
        n=it_len(ctx,it[1]); return (n+it[2]-1)//it[2] if it[3] else n//it[2]
    if k=='incl':
        _,s,e,done=it
        if isinstance(s,int) and isinstance(e,int): return 0 if done else max(0,e-s+1)
    return None

# ---------------------------------------------------------------- arrays, slices, Vec
@model(r'std::array::from_fn::<')
def m_arrfn(ctx,c,a,t,rt):
    m=re.match(r'\[.*; (.*)\]$',rt); n=ctx.count(m.group(1))
    return tuple(ctx.call_closure(a[0],[i]) for i in range(n))
@model(r'(core|std)::array::<impl \[.*\]>::map::<')
def m_arrmap(ctx,c,a,t,rt): return tuple(ctx.call_closure(a[1],[x]) for x in a[0])
@model(r'(core|std)::array::<impl \[.*\]>::each_(ref|mut)$')
def m_eachref(ctx,c,a,t,rt):
    s=slice_of(ctx,a[0]); return tuple(elem_ref(s,i) for i in range(s.meta[1]))
@model(r'(core|std)::slice::<impl \[.*\]>::(split_first|split_last)(_mut)?$')
def m_splitfl(ctx,c,a,t,rt):
    s=slice_of(ctx,a[0]); b,n=s.meta
    if n==0: return NONE
    if 'split_first' in c: return Some((elem_ref(s,0),Ref(s.cell,s.projs,(b+1,n-1))))
    return Some((elem_ref(s,n-1),Ref(s.cell,s.projs,(b,n-1))))
@model(r'(core|std)::slice::<impl \[.*\]>::(get|get_mut)::<std::ops::(RangeFrom|RangeTo|Range|RangeFull|RangeInclusive)<?')
def m_getrange(ctx,c,a,t,rt):
    import stdmodel
    try: return Some(stdmodel.do_index(ctx,a,re.search(r'::get(?:_mut)?::<(.*)>$',c).group(1)))
    except Panic: return NONE
@model(r'(core|std)::slice::<impl \[.*\]>::(rotate_left|rotate_right)$')
def m_rotate(ctx,c,a,t,rt):
    s=slice_of(ctx,a[0]); v=tuple(ctx.load(s)); n=len(v); k=a[1]
    if k>n: raise Panic('rotate')
    if 'right' in c: k=n-k
    ctx.store(s,v[k:]+v[:k]); return ()
@model(r'(core|std)::slice::<impl \[.*\]>::(copy_within)::<')
def m_copywithin(ctx,c,a,t,rt):
    import stdmodel
    s=slice_of(ctx,a[0]); src=stdmodel.do_index(ctx,[s,a[1]],c); v=tuple(ctx.load(src))
    if a[2]+len(v)>s.meta[1]: raise Panic('copy_within')
    ctx.store(Ref(s.cell,s.projs,(s.meta[0]+a[2],len(v))),v); return ()
@model(r'(core|std)::slice::<impl \[.*\]>::contains$')
def m_contains(ctx,c,a,t,rt):
    ty=re.search(r'<impl \[(.*)\]>',c).group(1)
    for x in ctx.seq(derefall(ctx,a[0])):
        if eq_val(ctx,ty,x,a[1]): return True
    return False
@model(r'(core|std)::slice::<impl \[.*\]>::(iter_mut)$|<&(mut )?.* as std::iter::IntoIterator>')
def m_itermut(ctx,c,a,t,rt):
    s=slice_of(ctx,a[0]); return mkiter('slice',s,0,s.meta[1])
@model(r'std::slice::<impl \[.*\]>::concat::<|(core|std)::slice::<impl \[.*\]>::concat')
def m_concat(ctx,c,a,t,rt):
    out=()
    for x in ctx.seq(derefall(ctx,a[0])): out+=tuple(ctx.seq(derefall(ctx,x)))
    return VecVal(out)
@model(r'std::vec::Vec::<.*>::(insert|remove|swap_remove|split_off|extend_from_within|reserve|shrink_to_fit|into_boxed_slice|drain)(::<.*>)?$')
def m_vecmisc(ctx,c,a,t,rt):
    op=re.search(r'>::(\w+)(?:::<.*>)?$',c).group(1)
    if op=='into_boxed_slice': return BoxVal(Cell(tuple(a[0].items)))
    if op in('reserve','shrink_to_fit'): return ()
    v=ctx.load(a[0]); l=list(v.items); k=a[1]
    if op=='drain':
        import stdmodel
        s=slice_of(ctx,a[0]); r=stdmodel.do_index(ctx,[s,k],c); b,n=r.meta; b-=s.meta[0]
        ctx.store(a[0],VecVal(tuple(l[:b]+l[b+n:]))); return mkiter('vec',tuple(l[b:b+n]),0)
    if not isinstance(k,int): raise Unsupported(c)
    if op=='insert':
        if k>len(l): raise Panic('insert')
        l.insert(k,a[2]); ctx.store(a[0],VecVal(tuple(l))); return ()
    if op=='split_off':
        if k>len(l): raise Panic('split_off')
        ctx.store(a[0],VecVal(tuple(l[:k]))); return VecVal(tuple(l[k:]))
    if k>=len(l): raise Panic(op)
    x=l[k]
    if op=='remove': del l[k]
    elif op=='swap_remove': l[k]=l[-1]; l.pop()
    else: raise Unsupported(c)
    ctx.store(a[0],VecVal(tuple(l))); return x
@model(r'<std::vec::Vec<.*> as std::convert::From<.*>>::from$')
def m_vecfrom(ctx,c,a,t,rt):
    v=derefall(ctx,a[0])
    if isinstance(v,BoxVal): v=v.cell.v
    return VecVal(tuple(ctx.seq(v)))
@model(r'<std::vec::Vec<.*> as std::convert::(TryInto)<\[.*; (.*)\]>>::try_into$')
def m_vectry(ctx,c,a,t,rt):
    n=ctx.count(re.search(r'; (\w+)\]>>::',c).group(1)); v=a[0].items
    return Enum(0,'Ok',(tuple(v),)) if len(v)==n else Enum(1,'Err',(a[0],))
@model(r'<.* as std::(convert::(AsRef|AsMut)|borrow::(Borrow|BorrowMut))<.*>>::(as_ref|as_mut|borrow|borrow_mut)$')
def m_asrefgen(ctx,c,a,t,rt):
    if re.search(r'As(Ref|Mut)<\[|Borrow(Mut)?<\[',c): return slice_of(ctx,a[0])
    return a[0]
@model(r'std::mem::take::<')
def m_memtake(ctx,c,a,t,rt):
    v=ctx.load(a[0]); z=VecVal() if isinstance(v,VecVal) else 0 if isinstance(v,int) else NONE if isinstance(v,Enum) and v.name in('Some','None') else None
    if z is None: raise Unsupported(c)
    ctx.store(a[0],z); return v

# ---------------------------------------------------------------- Option, Result, bool
@model(r'std::option::Option::<.*>::(unwrap_or_else|map_or|map_or_else|filter|or|or_else|ok_or|ok_or_else|as_mut|is_some_and|is_none_or|replace|insert|xor|get_or_insert_with|unwrap_or_default|zip|as_deref|flatten|get_or_insert|inspect|unwrap_unchecked)(::<.*>)?$')
def m_optmisc(ctx,c,a,t,rt):
    m=re.match(r'std::option::Option::<',c); d=0
    for j in range(m.end()-1,len(c)):
        if c[j]=='<': d+=1
        elif c[j]=='>' and c[j-1] not in '-=':
            d-=1
            if d==0: break
    op=re.match(r'::(\w+)',c[j+1:]).group(1)
    o=a[0]; r=None
    if isinstance(o,Ref): r=o; o=ctx.load(o)
    if not isinstance(o,Enum): raise Unsupported(c)
    some=o.name=='Some'; v=o.fields[0] if some else None; f=ctx.call_closure
    if op=='unwrap_or_else': return v if some else f(a[1],[])
    if op=='map_or': return f(a[2],[v]) if some else a[1]
    if op=='map_or_else': return f(a[2],[v]) if some else f(a[1],[])
    if op=='filter': return o if some and ctx.truth(f(a[1],[Ref(Cell(v))]),'filter') else NONE
    if op=='or': return o if some else a[1]
    if op=='or_else': return o if some else f(a[1],[])
    if op=='xor': return o if some and a[1].name=='None' else a[1] if not some else NONE
    if op=='ok_or': return Enum(0,'Ok',(v,)) if some else Enum(1,'Err',(a[1],))
    if op=='ok_or_else': return Enum(0,'Ok',(v,)) if some else Enum(1,'Err',(f(a[1],[]),))
    if op=='as_mut': return Some(Ref(r.cell,r.projs+(('field',0),))) if some else NONE
    if op=='is_some_and': return ctx.truth(f(a[1],[v]),'is_some_and') if some else False
    if op=='is_none_or': return ctx.truth(f(a[1],[v]),'is_none_or') if some else True
    if op=='zip': return Some((v,a[1].fields[0])) if some and a[1].name=='Some' else NONE
    if op=='flatten': return v if some else NONE
    if op=='replace': ctx.store(r,Some(a[1])); return o
    if op in('insert','get_or_insert','get_or_insert_with'):
        if op=='insert' or not some: ctx.store(r,Some(f(a[1],[]) if op.endswith('with') else a[1]))
        return Ref(r.cell,r.projs+(('field',0),))
    raise Unsupported(c)
@model(r'std::result::Result::<.*>::(ok|err|map|map_err|and_then|unwrap_or|unwrap_or_else|unwrap_err|is_ok_and|or_else)(::<.*>)?$')
def m_resmisc(ctx,c,a,t,rt):
    m=re.match(r'std::result::Result::<',c); d=0
    for j in range(m.end()-1,len(c)):
        if c[j]=='<': d+=1
        elif c[j]=='>' and c[j-1] not in '-=':
            d-=1
            if d==0: break
    op=re.match(r'::(\w+)',c[j+1:]).group(1)
    o=a[0]
    if not isinstance(o,Enum): raise Unsupported(c)
    ok=o.name=='Ok'; v=o.fields[0] if o.fields else (); f=ctx.call_closure
    if op=='ok': return Some(v) if ok else NONE
    if op=='err': return NONE if ok else Some(v)
    if op=='map': return Enum(0,'Ok',(f(a[1],[v]),)) if ok else o
    if op=='map_err': return o if ok else Enum(1,'Err',(f(a[1],[v]),))
    if op=='and_then': return f(a[1],[v]) if ok else o
    if op=='or_else': return o if ok else f(a[1],[v])
    if op=='unwrap_or': return v if ok else a[1]
    if op=='unwrap_or_else': return v if ok else f(a[1],[v])
    if op=='is_ok_and': return ctx.truth(f(a[1],[v]),'is_ok_and') if ok else False
    if op=='unwrap_err':
        if ok: raise Panic('unwrap_err')
        return v
    raise Unsupported(c)
@model(r'<std::(option::Option|result::Result)<.*> as std::ops::Try>::branch$')
def m_trybranch(ctx,c,a,t,rt):
    o=a[0]
    if o.name in('Some','Ok'): return Enum(0,'Continue',(o.fields[0],))
    return Enum(1,'Break',(o,))
@model(r'<std::(option::Option|result::Result)<.*> as std::ops::FromResidual<.*>>::from_residual$')
def m_fromres(ctx,c,a,t,rt):
    o=a[0]
    if o.name=='None': return NONE
    if o.name=='Err':
        m=re.match(r'<std::result::Result<.*, (.*)> as std::ops::FromResidual<std::result::Result<std::convert::Infallible, (.*)>>>',c)
        if m and m.group(1)==m.group(2): return o
    raise Unsupported(c)
@model(r'core::bool::<impl bool>::(then|then_some)(::<.*>)?$')
def m_then(ctx,c,a,t,rt):
    b=ctx.truth(a[0],'then')
    if not b: return NONE
    return Some(a[1] if '::then_some' in c else ctx.call_closure(a[1],[]))
@model(r'<&*(u8|u16|u32|u64|u128|usize|i8|i16|i32|i64|i128|isize|bool) as std::cmp::(Ord|PartialOrd)(<.*>)?>::(cmp|partial_cmp)$')
def m_intord(ctx,c,a,t,rt):
    ty=re.match(r'<&*(\w+)',c).group(1); x,y=derefall(ctx,a[0]),derefall(ctx,a[1])
    if ctx.truth(ctx.binop('Lt',ty,x,y),'cmp'): n='Less'
    elif ctx.truth(ctx.binop('Eq',ty,x,y),'cmp'): n='Equal'
    else: n='Greater'
    o=Enum(*STD_ENUMS[n]); return Some(o) if c.endswith('partial_cmp') else o
@model(r'std::cmp::Ordering::(is_lt|is_le|is_gt|is_ge|is_eq|is_ne|reverse|then)$')
def m_ordering(ctx,c,a,t,rt):
    o=a[0]; op=c.split('::')[-1]; k={'Less':-1,'Equal':0,'Greater':1}[o.name]
    if op=='reverse': return Enum(*STD_ENUMS[{-1:'Greater',0:'Equal',1:'Less'}[k]])
    if op=='then': return a[1] if k==0 else o
    return {'is_lt':k<0,'is_le':k<=0,'is_gt':k>0,'is_ge':k>=0,'is_eq':k==0,'is_ne':k!=0}[op]
@model(r'<std::cmp::Ordering as std::cmp::PartialEq>::(eq|ne)$')
def m_ordeq(ctx,c,a,t,rt):
    x,y=derefall(ctx,a[0]),derefall(ctx,a[1]); return (x.name==y.name)==c.endswith('eq')
@model(r'<(u8|u16|u32|u64|u128|usize|i8|i16|i32|i64|i128|isize) as std::ops::(Neg|Not)>::(neg|not)$|<bool as std::ops::Not>::not$')
def m_intneg(ctx,c,a,t,rt):
    ty=re.match(r'<&?(\w+)',c).group(1); x=deref(ctx,a[0])
    if c.endswith('neg'):
        r=ctx.binop('SubWithOverflow',ty,0,x)
        if ctx.truth(r[1],'overflow'): raise Panic('overflow')
        return r[0]
    if isinstance(x,bool): return not x
    if isinstance(x,int): return wrap_int(~x,ty)
    return ctx.dom.unop(ctx,'Not',ty,x) if ty!='bool' else ctx.dom.bnot(ctx,x)
@model(r'<(u8|u16|u32|u64|u128|usize|i8|i16|i32|i64|i128|isize) as std::convert::(TryFrom|TryInto)<(u8|u16|u32|u64|u128|usize|i8|i16|i32|i64|i128|isize)>>::try_(from|into)$')
def m_inttry(ctx,c,a,t,rt):
    m=re.match(r'<(\w+) as std::convert::(TryFrom|TryInto)<(\w+)>',c); to=m.group(1) if m.group(2)=='TryFrom' else m.group(3)
    if not isinstance(a[0],int): raise Unsupported(c)
    return Enum(0,'Ok',(a[0],)) if fits(a[0],to) else Enum(1,'Err',(Opaque('TryFromIntError'),))
@model(r'<(u8|u16|u32|u64|u128|usize|i8|i16|i32|i64|i128|isize) as std::convert::Into<(u8|u16|u32|u64|u128|usize|i8|i16|i32|i64|i128|isize)>>::into$')
def m_intinto(ctx,c,a,t,rt):
    m=re.match(r'<(\w+) as std::convert::Into<(\w+)>',c)
    return a[0] if isinstance(a[0],int) else ctx.dom.cast(ctx,a[0],m.group(1),m.group(2))

# ---------------------------------------------------------------- num_bigint / num_integer
@model(r'<%s as (num_integer::Integer|num::Integer|num_traits::\w+)>::(div_rem|is_even|is_odd|is_multiple_of|gcd|lcm|div_floor|mod_floor|divides)$'%BIG)
def m_integer(ctx,c,a,t,rt):
    import math
    op=c.split('::')[-1]; x=derefall(ctx,a[0]); y=derefall(ctx,a[1]) if len(a)>1 else None
    ty='num_bigint::BigUint' if 'BigUint as' in c else 'num_bigint::BigInt'
    if op=='div_rem': return tuple(m_big2(ctx,'<%s as std::ops::X>::%s'%(ty,o),[x,y],t,rt) for o in('div','rem'))
    if op in('is_even','is_odd'):
        r=m_big2(ctx,'<%s as std::ops::X>::rem'%ty,[x,2],t,rt)
        return ctx.dom.bigcmp(ctx,'eq' if op=='is_even' else 'ne',r,0) if not isinstance(r,int) else (r==0)==(op=='is_even')
    if op in('is_multiple_of','divides'):
        r=m_big2(ctx,'<%s as std::ops::X>::rem'%ty,[x,y],t,rt)
        return ctx.dom.bigcmp(ctx,'eq',r,0) if not isinstance(r,int) else r==0
    if isinstance(x,int) and isinstance(y,int):
        if op=='gcd': return math.gcd(x,y)
        if op=='lcm': return abs(x*y)//math.gcd(x,y) if x and y else 0
        if y==0: raise Panic('division by zero')
        if op=='div_floor': return x//y
        if op=='mod_floor': return x-y*(x//y)
    raise Unsupported(c)
@model(r'num_bigint::BigUint::modinv$|num_bigint::BigInt::modinv$')
def m_modinv(ctx,c,a,t,rt):
    x,y=derefall(ctx,a[0]),derefall(ctx,a[1])
    if isinstance(x,int) and isinstance(y,int):
        try: return Some(pow(x,-1,y))
        except ValueError: return NONE
    raise Unsupported(c)
@model(r'num_bigint::BigInt::(magnitude|into_parts)$|<num_bigint::BigInt as num_traits::Signed>::(abs|is_negative|is_positive)$')
def m_bigmisc(ctx,c,a,t,rt):
    x=derefall(ctx,a[0]); op=c.split('::')[-1]
    if not isinstance(x,int): raise Unsupported(c)
    if op=='magnitude': return Ref(Cell(abs(x)))
    if op=='abs': return abs(x)
    if op=='is_negative': return x<0
    if op=='is_positive': return x>0
    return (Enum(*STD_ENUMS['Sign::Minus' if x<0 else 'Sign::Plus' if x>0 else 'Sign::NoSign']),abs(x))
@model(r'<%s as num_traits::ToPrimitive>::to_(u8|u16|u32|u64|u128|usize|i32|i64)$'%BIG)
def m_toprim(ctx,c,a,t,rt):
    x=derefall(ctx,a[0]); ty=c.split('::to_')[-1]
    if not isinstance(x,int): raise Unsupported(c)
    return Some(x) if fits(x,ty) else NONE
@model(r'<%s as num_traits::Checked(Add|Sub|Mul)>::checked_(add|sub|mul)$'%BIG)
def m_bigchecked(ctx,c,a,t,rt):
    x,y=derefall(ctx,a[0]),derefall(ctx,a[1]); op=c.split('checked_')[-1]
    if not(isinstance(x,int) and isinstance(y,int)): raise Unsupported(c)
    r={'add':x+y,'sub':x-y,'mul':x*y}[op]
    return NONE if r<0 and 'BigUint' in c else Some(r)
@model(r'num_bigint::BigUint::(to_u64_digits|count_ones)$')
def m_tou64(ctx,c,a,t,rt):
    x=derefall(ctx,a[0])
    if not isinstance(x,int): raise Unsupported(c)
    if c.endswith('count_ones'): return bin(x).count('1')
    return VecVal(tuple((x>>(64*i))&(2**64-1) for i in range((x.bit_length()+63)//64)))
@model(r'<num_bigint::BigInt as std::convert::Into<.*>>::into$|<num_bigint::BigUint as std::convert::Into<.*>>::into$|<(u8|u16|u32|u64|usize|i32|i64) as std::convert::Into<num_bigint::.*>>::into$')
def m_biginto(ctx,c,a,t,rt): return derefall(ctx,a[0])
