"""Assumed contracts (models) of the std / num-bigint functions that the crate calls.
They are trusted; DESIGN.md and every evidence file list them by family."""
import re
from interp import *

def _u(n): return lambda *a: None

def family(callee):
    c=strip_generics(callee)
    c=re.sub(r'<.* as ([^>]*?)(<.*)?>',r'<_ as \1>',c)
    return c[:90]

def deref(ctx,r):
    if isinstance(r,Ref): return ctx.load(r)
    return r
def derefall(ctx,r):
    while isinstance(r,Ref): r=ctx.load(r)
    return r

MODELS=[]
def model(rx):
    def d(fn):
        MODELS.append((re.compile(rx),fn)); return fn
    return d
_cache={}
def lookup(callee):
    if callee in _cache: return _cache[callee]
    r=None
    for rx,fn in MODELS:
        if rx.match(callee): r=fn; break
    _cache[callee]=r
    return r

# ---------------------------------------------------------------- panics, fmt
@model(r'core::panicking::panic|core::panicking::assert_failed|std::rt::|core::panicking|std::rt::begin_panic|core::option::unwrap_failed|core::option::expect_failed')
def m_panic(ctx,c,a,t,rt): raise Panic(c.split('::<')[0]+' '+' '.join(x.what for x in a if isinstance(x,Opaque)))
@model(r'std::fmt::|core::fmt::|<.* as std::fmt::|std::io::_print|std::io::_eprint|alloc::fmt::|std::string::|<.* as std::string::ToString>')
def m_fmt(ctx,c,a,t,rt): return Opaque('fmt')

# ---------------------------------------------------------------- integers
INTPAT=r'core::num::<impl (u8|u16|u32|u64|u128|usize|i8|i16|i32|i64|i128|isize)>::'
@model(INTPAT+r'(wrapping_(add|sub|mul|neg|shl|shr)|overflowing_(add|sub|mul)|checked_(add|sub|mul)|saturating_(sub|add))$')
def m_wrap(ctx,c,a,t,rt):
    m=re.match(INTPAT+r'(\w+)_(\w+)$',c); ty,kind,op=m.group(1),m.group(2),m.group(3)
    if op=='neg': x,y,o=0,a[0],'Sub'
    else: x,y,o=a[0],a[1],{'add':'Add','sub':'Sub','mul':'Mul','shl':'Shl','shr':'Shr'}[op]
    if kind=='wrapping': return ctx.binop(o,ty,x,y)
    r=ctx.binop(o+'WithOverflow',ty,x,y)
    if kind=='overflowing': return r
    if kind=='checked':
        return NONE if ctx.truth(r[1],'checked') else Some(r[0])
    if kind=='saturating':
        w,s=INT_TYPES[ty]
        if s: raise Unsupported(c)
        if ctx.truth(r[1],'saturating'): return 0 if op=='sub' else (1<<w)-1
        return r[0]
@model(INTPAT+r'(leading_zeros|trailing_zeros|count_ones|to_le_bytes|from_le_bytes|to_be_bytes|from_be_bytes|pow|rotate_left|rotate_right|abs|isqrt|is_power_of_two|wrapping_pow|unsigned_abs|signum|rem_euclid|div_euclid|div_ceil|abs_diff|ilog2)$')
def m_int(ctx,c,a,t,rt):
    m=re.match(INTPAT+r'(\w+)$',c); ty,op=m.group(1),m.group(2)
    w,s=INT_TYPES[ty]
    if op in('to_le_bytes','to_be_bytes'):
        if isinstance(a[0],int):
            r=tuple(((a[0])>>(8*i))&255 for i in range(w//8))
        else: r=tuple(ctx.dom.to_bytes(ctx,a[0],ty))
        return r if op=='to_le_bytes' else r[::-1]
    if op in('from_le_bytes','from_be_bytes'):
        b=a[0] if op=='from_le_bytes' else a[0][::-1]
        if all(isinstance(x,int) for x in b):
            return wrap_int(sum(x<<(8*i) for i,x in enumerate(b)),ty)
        return ctx.dom.from_bytes(ctx,b,ty)
    if not all(isinstance(x,int) for x in a): return ctx.dom.intfn(ctx,op,ty,a)
    x=a[0]
    if op=='leading_zeros': return w-(x&((1<<w)-1)).bit_length()
    if op=='trailing_zeros':
        x&=(1<<w)-1
        return w if x==0 else (x&-x).bit_length()-1
    if op=='count_ones': return bin(x&((1<<w)-1)).count('1')
    if op in('pow',):
        r=x**a[1]
        if not fits(r,ty): raise Panic('pow overflow')
        return r
    if op=='wrapping_pow': return wrap_int(x**a[1],ty)
    if op=='abs': return abs(x)
    if op=='unsigned_abs': return abs(x)
    if op=='isqrt':
        import math; return math.isqrt(x)
    if op=='is_power_of_two': return x>0 and x&(x-1)==0
    if op=='div_ceil': return -((-x)//a[1])
    if op=='rem_euclid': return x%abs(a[1])
    if op=='abs_diff': return abs(x-a[1])
    if op=='ilog2': return x.bit_length()-1
    raise Unsupported(c)
@model(r'<&?(u8|u16|u32|u64|u128|usize|i8|i16|i32|i64|i128|isize) as std::ops::(Add|Sub|Mul|Div|Rem|BitAnd|BitOr|BitXor|Shl|Shr)(<.*>)?>::\w+$')
def m_intop(ctx,c,a,t,rt):
    m=re.match(r'<&?(\w+) as std::ops::(\w+)',c); ty,op=m.group(1),m.group(2)
    x,y=deref(ctx,a[0]),deref(ctx,a[1])
    if op in('Add','Sub','Mul'):
        r=ctx.binop(op+'WithOverflow',ty,x,y)
        if ctx.truth(r[1],'overflow'): raise Panic('overflow')
        return r[0]
    if op in('Div','Rem') and y==0: raise Panic('div by zero')
    return ctx.binop(op,ty,x,y)
@model(r'<&?(u8|u16|u32|u64|u128|usize|i8|i16|i32|i64|i128|isize) as std::ops::(Add|Sub|Mul|Div|Rem|BitAnd|BitOr|BitXor|Shl|Shr)Assign(<.*>)?>::\w+$')
def m_intopassign(ctx,c,a,t,rt):
    m=re.match(r'<&?(\w+) as std::ops::(\w+)Assign',c); ty,op=m.group(1),m.group(2)
    x,y=ctx.load(a[0]),deref(ctx,a[1])
    if op in('Add','Sub','Mul'):
        r=ctx.binop(op+'WithOverflow',ty,x,y)
        if ctx.truth(r[1],'overflow'): raise Panic('overflow')
        ctx.store(a[0],r[0]); return ()
    ctx.store(a[0],ctx.binop(op,ty,x,y)); return ()
@model(r'<&*(u8|u16|u32|u64|u128|usize|i8|i16|i32|i64|i128|isize|bool) as std::cmp::(PartialEq|PartialOrd)(<.*>)?>::\w+$')
def m_intcmp(ctx,c,a,t,rt):
    m=re.match(r'<&*(\w+) as std::cmp::\w+(?:<.*>)?>::(\w+)$',c); ty,op=m.group(1),m.group(2)
    x,y=derefall(ctx,a[0]),derefall(ctx,a[1])
    return ctx.binop({'eq':'Eq','ne':'Ne','lt':'Lt','le':'Le','gt':'Gt','ge':'Ge'}[op],ty,x,y)
@model(r'std::cmp::(min|max)::<(u8|u16|u32|u64|u128|usize|i8|i16|i32|i64|i128|isize)>|<(u8|u32|u64|usize|i32|i64) as std::cmp::Ord>::(min|max)$')
def m_minmax(ctx,c,a,t,rt):
    if all(isinstance(x,int) for x in a):
        return (min if ('::min' in c) else max)(a[0],a[1])
    raise Unsupported(c)
@model(r'<(u8|u16|u32|u64|u128|usize|i8|i16|i32|i64|i128|isize) as std::convert::From<(u8|u16|u32|u64|usize|i8|i16|i32|bool)>>::from$')
def m_intfrom(ctx,c,a,t,rt):
    m=re.match(r'<(\w+) as std::convert::From<(\w+)>',c)
    if isinstance(a[0],bool): return int(a[0])
    if isinstance(a[0],int): return a[0]
    return ctx.dom.cast(ctx,a[0],m.group(2),m.group(1))

# ---------------------------------------------------------------- x86 intrinsics
@model(r'(std|core)::arch::x86_64::_addcarry_u64$')
def m_addc(ctx,c,a,t,rt):
    ci,x,y,out=a
    d,co=ctx.dom.adc(ctx,x,y,ci)
    ctx.store(out,d); return co
@model(r'(std|core)::arch::x86_64::_subborrow_u64$')
def m_subb(ctx,c,a,t,rt):
    ci,x,y,out=a
    d,co=ctx.dom.sbb(ctx,x,y,ci)
    ctx.store(out,d); return co
@model(r'(std|core)::arch::x86_64::_mulx_u64$')
def m_mulx(ctx,c,a,t,rt):
    x,y,out=a
    lo,hi=ctx.dom.mulx(ctx,x,y)
    ctx.store(out,hi); return lo

# ---------------------------------------------------------------- iterators
class It: pass   # iterators are plain values so that they can live in cells
def mkiter(kind,*fields): return ('iter:'+kind,)+fields
def isit(v): return isinstance(v,tuple) and v and isinstance(v[0],str) and v[0].startswith('iter:')

def it_next(ctx,it,ety=None):
    """-> (Option, new iterator)"""
    k=it[0] if isit(it) else None
    if k is None:
        # Range struct (start,end)
        if isinstance(it,tuple) and len(it)==2 and not isinstance(it[0],str):
            s,e=it
            if ety is None: ety='usize'
            c=ctx.binop('Lt',ety,s,e)
            if ctx.truth(c,'range'):
                return Some(s),(ctx.binop('Add',ety,s,1),e)
            return NONE,it
        if isinstance(it,Ref):
            o,n=it_next(ctx,ctx.load(it),ety); ctx.store(it,n); return o,it
        raise Unsupported('iterator %r'%(type(it),))
    k=k[5:]
    if k=='slice' or k=='slicemut':
        _,ref,i,n=it
        if i<n:
            return Some(elem_ref(ref,i)),(it[0],ref,i+1,n)
        return NONE,it
    if k=='rev':
        o,n=it_back(ctx,it[1],ety); return o,('iter:rev',n)
    if k=='take':
        if it[2]==0: return NONE,it
        o,n=it_next(ctx,it[1],ety); return o,('iter:take',n,it[2]-1)
    if k=='skip':
        inner,cnt=it[1],it[2]
        while cnt>0:
            o,inner=it_next(ctx,inner,ety); cnt-=1
            if o.idx==0: return NONE,('iter:skip',inner,0)
        o,inner=it_next(ctx,inner,ety); return o,('iter:skip',inner,0)
    if k=='enum':
        o,n=it_next(ctx,it[1],ety)
        if o.idx==0: return NONE,('iter:enum',n,it[2])
        return Some((it[2],o.fields[0])),('iter:enum',n,it[2]+1 if isinstance(it[2],int) else ctx.binop('Add','usize',it[2],1))
    if k=='zip':
        o1,n1=it_next(ctx,it[1],ety)
        if o1.idx==0: return NONE,('iter:zip',n1,it[2])
        o2,n2=it_next(ctx,it[2],ety)
        if o2.idx==0: return NONE,('iter:zip',n1,n2)
        return Some((o1.fields[0],o2.fields[0])),('iter:zip',n1,n2)
    if k=='vec':
        items,i=it[1],it[2]
        if i<len(items): return Some(items[i]),('iter:vec',items,i+1)
        return NONE,it
    if k=='map':
        o,n=it_next(ctx,it[1],ety)
        if o.idx==0: return NONE,('iter:map',n,it[2])
        return Some(ctx.call_closure(it[2],[o.fields[0]])),('iter:map',n,it[2])
    if k=='filter':
        inner=it[1]
        while True:
            o,inner=it_next(ctx,inner,ety)
            if o.idx==0: return NONE,('iter:filter',inner,it[2])
            if ctx.truth(ctx.call_closure(it[2],[Ref(Cell(o.fields[0]))]),'filter'): return o,('iter:filter',inner,it[2])
    if k=='copied':
        o,n=it_next(ctx,it[1],ety)
        if o.idx==0: return NONE,('iter:copied',n)
        return Some(ctx.load(o.fields[0])),('iter:copied',n)
    if k=='chunks':
        _,ref,i,n,sz=it
        if i>=n: return NONE,it
        e=min(n,i+sz)
        b=ref.meta[0] if ref.meta else 0
        return Some(Ref(ref.cell,ref.projs,(b+i,e-i))),('iter:chunks',ref,e,n,sz)
    if k=='stepby':
        inner,step,first=it[1:]
        if not first:
            for _ in range(step-1):
                o,inner=it_next(ctx,inner,ety)
                if o.idx==0: return NONE,('iter:stepby',inner,step,False)
        o,inner=it_next(ctx,inner,ety)
        return o,('iter:stepby',inner,step,False)
    if k=='incl':
        _,s,e,done=it
        ety=ety or 'usize'
        if done: return NONE,it
        if ctx.truth(ctx.binop('Lt',ety,s,e),'rangeincl'): return Some(s),('iter:incl',ctx.binop('Add',ety,s,1),e,False)
        if ctx.truth(ctx.binop('Eq',ety,s,e),'rangeincl'): return Some(s),('iter:incl',s,e,True)
        return NONE,it
    if k in('seq','seqv'): return ctx.dom.seq_next(ctx,it)
    r=stdmodel2.more_next(ctx,it,ety)
    if r is not None: return r
    raise Unsupported('iterator '+k)
def it_back(ctx,it,ety=None):
    if not isit(it) and isinstance(it,tuple) and len(it)==2:
        s,e=it
        ety=ety or 'usize'
        if ctx.truth(ctx.binop('Lt',ety,s,e),'range'):
            e2=ctx.binop('Sub',ety,e,1)
            return Some(e2),(s,e2)
        return NONE,it
    if isit(it):
        k=it[0][5:]
        if k in('slice','slicemut'):
            _,ref,i,n=it
            if i<n: return Some(elem_ref(ref,n-1)),(it[0],ref,i,n-1)
            return NONE,it
        if k=='vec':
            items,i=it[1],it[2]
            if i<len(items): return Some(items[-1]),('iter:vec',items[:-1],i)
            return NONE,it
        if k=='rev':
            o,n=it_next(ctx,it[1],ety); return o,('iter:rev',n)
        if k=='copied':
            o,n=it_back(ctx,it[1],ety)
            return (o if o.idx==0 else Some(ctx.load(o.fields[0]))),('iter:copied',n)
        if k=='map':
            o,n=it_back(ctx,it[1],ety)
            return (o if o.idx==0 else Some(ctx.call_closure(it[2],[o.fields[0]]))),('iter:map',n,it[2])
        if k=='incl':
            _,s,e,done=it
            ety=ety or 'usize'
            if done: return NONE,it
            if ctx.truth(ctx.binop('Lt',ety,s,e),'rangeincl'): return Some(e),('iter:incl',s,ctx.binop('Sub',ety,e,1),False)
            if ctx.truth(ctx.binop('Eq',ety,s,e),'rangeincl'): return Some(e),('iter:incl',s,e,True)
            return NONE,it
        if k=='enum':
            n=it_len(ctx,it[1])
            o,inner=it_back(ctx,it[1],ety)
            if o.idx==0: return NONE,it
            return Some((it[2]+n-1,o.fields[0])),('iter:enum',inner,it[2])
        if k=='zip':
            n1,n2=it_len(ctx,it[1]),it_len(ctx,it[2])
            x,y=it[1],it[2]
            while n1>n2: _,x=it_back(ctx,x,ety); n1-=1
            while n2>n1: _,y=it_back(ctx,y,ety); n2-=1
            o1,x=it_back(ctx,x,ety); o2,y=it_back(ctx,y,ety)
            if o1.idx==0: return NONE,('iter:zip',x,y)
            return Some((o1.fields[0],o2.fields[0])),('iter:zip',x,y)
        r=stdmodel2.more_back(ctx,it,ety)
        if r is not None: return r
    raise Unsupported('next_back')
def it_len(ctx,it):
    if not isit(it):
        s,e=it
        if isinstance(s,int) and isinstance(e,int): return max(0,e-s)
        raise Unsupported('symbolic iterator length')
    k=it[0][5:]
    if k in('slice','slicemut'): return it[3]-it[2]
    if k in('rev','copied','map','enum'): return it_len(ctx,it[1])
    if k=='vec': return len(it[1])-it[2]
    if k=='zip': return min(it_len(ctx,it[1]),it_len(ctx,it[2]))
    if k=='take': return min(it_len(ctx,it[1]),it[2])
    r=stdmodel2.more_len(ctx,it)
    if r is not None: return r
    raise Unsupported('iterator length')
def elem_ref(ref,i):
    b=ref.meta[0] if ref.meta else 0
    return Ref(ref.cell,ref.projs+(('idx',b+i),))
def slice_of(ctx,r):
    """Ref to Vec/array/slice -> slice Ref with meta"""
    while True:
        if not isinstance(r,Ref): raise Unsupported('slice_of %r'%(r,))
        if r.meta is not None: return r
        v=ctx.load(r)
        if isinstance(v,Ref): r=v; continue
        if isinstance(v,Sym) and getattr(v,'func',0)!=0: return r
        return Ref(r.cell,r.projs,(0,len(ctx.seq(v))))

def range_elem(c):
    m=re.search(r'Range(?:Inclusive)?<(\w+)>',c)
    return m.group(1) if m else None
@model(r'<.* as std::iter::IntoIterator>::into_iter$')
def m_into_iter(ctx,c,a,t,rt):
    v=a[0]
    if isinstance(v,Ref):
        x=ctx.load(v)
        if isit(x) or (isinstance(x,tuple) and c.startswith('<&mut std::ops::Range')): return v
        s=slice_of(ctx,v); return mkiter('slice',s,0,s.meta[1])
    if isinstance(v,VecVal): return mkiter('vec',v.items,0)
    if c.startswith('<['): return mkiter('vec',tuple(v),0)
    return v
@model(r'<.* as std::iter::(Iterator|DoubleEndedIterator)>::(next|next_back)$')
def m_next(ctx,c,a,t,rt):
    it=ctx.load(a[0])
    f=it_next if c.endswith('::next') else it_back
    o,n=f(ctx,it,range_elem(c))
    ctx.store(a[0],n)
    return o
@model(r'<.* as std::iter::Iterator>::(rev|enumerate)$')
def m_rev(ctx,c,a,t,rt):
    return mkiter('rev',a[0]) if c.endswith('rev') else mkiter('enum',a[0],0)
@model(r'<.* as std::iter::Iterator>::(take|skip)$')
def m_take(ctx,c,a,t,rt):
    if not isinstance(a[1],int): raise Unsupported('symbolic take')
    return mkiter(c.split('::')[-1],a[0],a[1])
@model(r'<.* as std::iter::Iterator>::step_by$')
def m_stepby(ctx,c,a,t,rt): return mkiter('stepby',a[0],a[1],True)
@model(r'<.* as std::iter::Iterator>::(copied|cloned)::<')
def m_copied(ctx,c,a,t,rt): return mkiter('copied',a[0])
@model(r'<.* as std::iter::Iterator>::zip::<')
def m_zip(ctx,c,a,t,rt):
    return mkiter('zip',a[0],m_into_iter(ctx,'',[a[1]],t,rt))
@model(r'<.* as std::iter::Iterator>::map::<')
def m_map(ctx,c,a,t,rt): return mkiter('map',a[0],a[1])
@model(r'<.* as std::iter::Iterator>::filter::<')
def m_filter(ctx,c,a,t,rt): return mkiter('filter',a[0],a[1])
def drain(ctx,it,ety):
    while True:
        o,it=it_next(ctx,it,ety)
        if o.idx==0: return
        yield o.fields[0]
def itarg(ctx,v): return v
@model(r'<.* as std::iter::Iterator>::fold::<')
def m_fold(ctx,c,a,t,rt):
    acc=a[1]
    for x in drain(ctx,a[0],range_elem(c)): acc=ctx.call_closure(a[2],[acc,x])
    return acc
@model(r'<.* as std::iter::Iterator>::(all|any)::<')
def m_all(ctx,c,a,t,rt):
    isall='::all::<' in c
    for x in drain(ctx,a[0],range_elem(c)):
        r=ctx.truth(ctx.call_closure(a[1],[x]),'all/any')
        if isall and not r: return False
        if not isall and r: return True
    return isall
@model(r'<.* as std::iter::Iterator>::find::<')
def m_find(ctx,c,a,t,rt):
    it=derefall(ctx,a[0])
    if isit(it) and it[0]=='iter:sym': return ctx.dom.sym_find(ctx,it,a[1])
    for x in drain(ctx,a[0],range_elem(c)):
        if ctx.truth(ctx.call_closure(a[1],[Ref(Cell(x))]),'find'): return Some(x)
    return NONE
@model(r'<.* as std::iter::Iterator>::position::<')
def m_position(ctx,c,a,t,rt):
    for i,x in enumerate(drain(ctx,a[0],range_elem(c))):
        if ctx.truth(ctx.call_closure(a[1],[x]),'position'): return Some(i)
    return NONE
@model(r'<.* as std::iter::Iterator>::for_each::<')
def m_foreach(ctx,c,a,t,rt):
    for x in drain(ctx,a[0],range_elem(c)): ctx.call_closure(a[1],[x])
    return ()
@model(r'<.* as std::iter::Iterator>::(sum|product)::<')
def m_sum(ctx,c,a,t,rt):
    m=re.search(r'::(sum|product)::<(.*)>$',c); ty=m.group(2); acc=0 if m.group(1)=='sum' else 1
    for x in drain(ctx,a[0],range_elem(c)):
        x=derefall(ctx,x)
        if ty in INT_TYPES:
            r=ctx.binop('AddWithOverflow' if m.group(1)=='sum' else 'MulWithOverflow',ty,acc,x)
            if ctx.truth(r[1],'overflow'): raise Panic('overflow in sum')
            acc=r[0]
        elif 'BigUint' in ty or 'BigInt' in ty:
            acc=bigop(ctx,'add' if m.group(1)=='sum' else 'mul',acc,x)
        else: raise Unsupported(c)
    return acc
@model(r'<.* as std::iter::Iterator>::collect::<')
def m_collect(ctx,c,a,t,rt):
    if '::collect::<std::vec::Vec<' not in c:
        f=stdmodel2.m_collectbox if '::collect::<std::boxed::Box<[' in c else stdmodel2.m_collectopt if re.search(r'collect::<std::(option::Option|result::Result)<std::vec::Vec<',c) else None
        if f is None: raise Unsupported(c)
        return f(ctx,c,a,t,rt)
    return VecVal(tuple(drain(ctx,a[0],range_elem(c))))
@model(r'<.* as std::iter::Iterator>::count$')
def m_count(ctx,c,a,t,rt): return sum(1 for _ in drain(ctx,a[0],range_elem(c)))
@model(r'<.* as std::iter::Iterator>::last$')
def m_itlast(ctx,c,a,t,rt):
    r=NONE
    for x in drain(ctx,a[0],range_elem(c)): r=Some(x)
    return r
@model(r'std::ops::RangeInclusive::<.*>::new$')
def m_rincl(ctx,c,a,t,rt): return mkiter('incl',a[0],a[1],False)

# ---------------------------------------------------------------- slices / Vec / Box
@model(r'(core|std)::slice::<impl \[.*\]>::(iter|iter_mut)$|std::vec::Vec::<.*>::(iter|iter_mut)$|(core|std)::array::<impl \[.*\]>::(iter|iter_mut)$')
def m_iter(ctx,c,a,t,rt):
    v=derefall(ctx,a[0])
    if isinstance(v,Sym): return mkiter('sym',v,0)
    s=slice_of(ctx,a[0]); return mkiter('slice',s,0,s.meta[1])
@model(r'(core|std)::slice::<impl \[.*\]>::chunks(_exact)?$')
def m_chunks(ctx,c,a,t,rt):
    s=slice_of(ctx,a[0]); n=s.meta[1]; 
    if c.endswith('exact'): n-=n%a[1]
    return mkiter('chunks',s,0,n,a[1])
@model(r'(core|std)::slice::<impl \[.*\]>::len$|std::vec::Vec::<.*>::len$')
def m_len(ctx,c,a,t,rt):
    v=derefall(ctx,a[0])
    if isinstance(v,(VecVal,tuple)) : return len(ctx.seq(v))
    return ctx.dom.length(ctx,v)
@model(r'(core|std)::slice::<impl \[.*\]>::is_empty$|std::vec::Vec::<.*>::is_empty$')
def m_isempty(ctx,c,a,t,rt): return slice_of(ctx,a[0]).meta[1]==0
@model(r'(core|std)::slice::<impl \[.*\]>::(last|first|last_mut|first_mut)$')
def m_last(ctx,c,a,t,rt):
    s=slice_of(ctx,a[0]); n=s.meta[1]
    if n==0: return NONE
    return Some(elem_ref(s,n-1 if '::last' in c else 0))
@model(r'(core|std)::slice::<impl \[.*\]>::(get|get_mut)::<usize>$')
def m_get(ctx,c,a,t,rt):
    s=slice_of(ctx,a[0])
    return Some(elem_ref(s,a[1])) if a[1]<s.meta[1] else NONE
@model(r'(core|std)::slice::<impl \[.*\]>::split_at(_mut)?$')
def m_splitat(ctx,c,a,t,rt):
    s=slice_of(ctx,a[0]); b,n=s.meta
    if a[1]>n: raise Panic('split_at')
    return (Ref(s.cell,s.projs,(b,a[1])),Ref(s.cell,s.projs,(b+a[1],n-a[1])))
@model(r'(core|std)::slice::<impl \[.*\]>::swap$')
def m_swap(ctx,c,a,t,rt):
    s=slice_of(ctx,a[0]); n=s.meta[1]
    if a[1]>=n or a[2]>=n: raise Panic('swap')
    r1,r2=elem_ref(s,a[1]),elem_ref(s,a[2]); x,y=ctx.load(r1),ctx.load(r2); ctx.store(r1,y); ctx.store(r2,x); return ()
@model(r'(core|std)::slice::<impl \[.*\]>::reverse$')
def m_reverse(ctx,c,a,t,rt):
    s=slice_of(ctx,a[0]); ctx.store(s,tuple(ctx.load(s))[::-1]); return ()
@model(r'(core|std)::slice::<impl \[.*\]>::fill$')
def m_fill(ctx,c,a,t,rt):
    s=slice_of(ctx,a[0]); ctx.store(s,(a[1],)*s.meta[1]); return ()
@model(r'(core|std)::slice::<impl \[.*\]>::(copy_from_slice|clone_from_slice)$')
def m_copyfrom(ctx,c,a,t,rt):
    d=slice_of(ctx,a[0]); s=slice_of(ctx,a[1])
    if d.meta[1]!=s.meta[1]: raise Panic('copy_from_slice length mismatch')
    ctx.store(d,tuple(ctx.load(s))); return ()
@model(r'std::mem::swap::<')
def m_memswap(ctx,c,a,t,rt):
    x,y=ctx.load(a[0]),ctx.load(a[1]); ctx.store(a[0],y); ctx.store(a[1],x); return ()
@model(r'std::mem::replace::<')
def m_memreplace(ctx,c,a,t,rt):
    x=ctx.load(a[0]); ctx.store(a[0],a[1]); return x
@model(r'std::vec::Vec::<.*>::(new|with_capacity)$')
def m_vecnew(ctx,c,a,t,rt): return VecVal()
@model(r'std::vec::from_elem::<')
def m_fromelem(ctx,c,a,t,rt):
    if not isinstance(a[1],int): raise Unsupported('symbolic vec length')
    return VecVal((a[0],)*a[1])
@model(r'std::vec::Vec::<.*>::push$')
def m_push(ctx,c,a,t,rt):
    v=ctx.load(a[0])
    ctx.store(a[0],VecVal(v.items+(a[1],)) if isinstance(v,VecVal) else ctx.dom.vec_push(ctx,v,a[1])); return ()
@model(r'std::vec::Vec::<.*>::pop$')
def m_pop(ctx,c,a,t,rt):
    v=ctx.load(a[0])
    if not v.items: return NONE
    ctx.store(a[0],VecVal(v.items[:-1])); return Some(v.items[-1])
@model(r'std::vec::Vec::<.*>::(truncate)$')
def m_trunc(ctx,c,a,t,rt):
    v=ctx.load(a[0]); ctx.store(a[0],VecVal(v.items[:a[1]])); return ()
@model(r'std::vec::Vec::<.*>::(clear)$')
def m_clear(ctx,c,a,t,rt): ctx.store(a[0],VecVal()); return ()
@model(r'std::vec::Vec::<.*>::resize$')
def m_resize(ctx,c,a,t,rt):
    v=ctx.load(a[0]); n=a[1]
    if not isinstance(n,int): raise Unsupported('symbolic resize')
    ctx.store(a[0],VecVal(v.items[:n]+(a[2],)*(n-len(v.items)))); return ()
@model(r'std::vec::Vec::<.*>::append$')
def m_append(ctx,c,a,t,rt):
    v=ctx.load(a[0]); w=ctx.load(a[1]); ctx.store(a[0],VecVal(v.items+w.items)); ctx.store(a[1],VecVal()); return ()
@model(r'std::vec::Vec::<.*>::extend_from_slice$|<std::vec::Vec<.*> as std::iter::Extend<.*>>::extend::<')
def m_extend(ctx,c,a,t,rt):
    v=ctx.load(a[0])
    x=a[1]
    if isinstance(x,Ref):
        y=derefall(ctx,x)
        items=tuple(ctx.seq(y)) if not isit(y) else None
    elif isinstance(x,VecVal): items=x.items
    elif isit(x): items=None
    else: items=tuple(x)
    if items is None:
        items=[]
        for e in drain(ctx,x,None): items.append(derefall(ctx,e) if isinstance(e,Ref) else e)
        items=tuple(items)
    ctx.store(a[0],VecVal(v.items+items)); return ()
@model(r'<std::vec::Vec<.*> as std::ops::(Deref|DerefMut)>::deref(_mut)?$|std::vec::Vec::<.*>::as_(mut_)?slice$|(core|std)::array::<impl \[.*\]>::as_(mut_)?slice$')
def m_deref(ctx,c,a,t,rt): return slice_of(ctx,a[0])
@model(r'<\[.*\] as std::borrow::ToOwned>::to_owned$|std::slice::<impl \[.*\]>::to_vec$|<std::vec::Vec<.*> as std::convert::From<&?(mut )?\[.*\]>>::from$')
def m_tovec(ctx,c,a,t,rt):
    v=derefall(ctx,a[0]); return VecVal(ctx.seq(v))
def do_index(ctx,a,c):
    s=slice_of(ctx,a[0]); i=a[1]; b,n=s.meta
    def up(x): 
        if not isinstance(x,int): return ctx.dom.concretize_index(ctx,x)
        return x
    if 'RangeFrom<' in c:
        i0=up(i[0] if isinstance(i,tuple) else i)
        lo,hi=i0,n
    elif 'RangeTo<' in c: lo,hi=0,up(i[0] if isinstance(i,tuple) else i)
    elif 'RangeFull' in c: lo,hi=0,n
    elif 'RangeInclusive<' in c:
        lo,hi=up(i[1]),up(i[2])+1
    elif 'Range<' in c: lo,hi=up(i[0]),up(i[1])
    else:
        i=up(i)
        if i>=n or i<0: raise Panic('index out of bounds')
        return elem_ref(s,i)
    if lo>hi or hi>n: raise Panic('slice index out of range')
    return Ref(s.cell,s.projs,(b+lo,hi-lo))
@model(r'<.* as std::ops::(Index|IndexMut)<.*>>::index(_mut)?$')
def m_index(ctx,c,a,t,rt):
    m=re.search(r' as std::ops::Index(?:Mut)?<(.*)>>::',c)
    return do_index(ctx,a,m.group(1))
@model(r'std::boxed::Box::<.*>::new_uninit$')
def m_newuninit(ctx,c,a,t,rt): return BoxVal(Cell(BOXUNINIT))
@model(r'std::boxed::box_assume_init_into_vec_unsafe::<')
def m_boxvec(ctx,c,a,t,rt): return VecVal(a[0].cell.v)
@model(r'std::boxed::Box::<.*>::new$')
def m_boxnew(ctx,c,a,t,rt): return BoxVal(Cell(a[0]))

# ---------------------------------------------------------------- Option / Result / Clone / Convert
@model(r'std::option::Option::<.*>::(unwrap|expect)$|std::result::Result::<.*>::(unwrap|expect)$')
def m_unwrap(ctx,c,a,t,rt):
    o=a[0]
    if not isinstance(o,Enum): raise Unsupported('unwrap of %r'%(o,))
    if o.name in('None','Err'): raise Panic('unwrap on '+o.name)
    return o.fields[0]
@model(r'std::option::Option::<.*>::(is_some|is_none)$|std::result::Result::<.*>::(is_ok|is_err)$')
def m_issome(ctx,c,a,t,rt):
    o=derefall(ctx,a[0])
    if not isinstance(o,Enum): raise Unsupported('is_some')
    return (o.name in('Some','Ok'))==c.endswith(('is_some','is_ok'))
@model(r'std::option::Option::<.*>::unwrap_or$')
def m_unwrapor(ctx,c,a,t,rt):
    return a[0].fields[0] if a[0].name=='Some' else a[1]
@model(r'std::option::Option::<.*>::as_ref$')
def m_asref(ctx,c,a,t,rt):
    o=ctx.load(a[0])
    if o.name=='None': return NONE
    return Some(Ref(a[0].cell,a[0].projs+(('field',0),)))
@model(r'std::option::Option::<.*>::take$')
def m_otake(ctx,c,a,t,rt):
    o=ctx.load(a[0]); ctx.store(a[0],NONE); return o
@model(r'std::option::Option::<.*>::map::<|std::option::Option::<.*>::and_then::<')
def m_omap(ctx,c,a,t,rt):
    if a[0].name=='None': return NONE
    r=ctx.call_closure(a[1],[a[0].fields[0]])
    return Some(r) if '::map::<' in c else r
@model(r'std::option::Option::<&.*>::(copied|cloned)$')
def m_ocopied(ctx,c,a,t,rt):
    return NONE if a[0].name=='None' else Some(ctx.load(a[0].fields[0]))
@model(r'<.* as std::clone::Clone>::clone$')
def m_clone(ctx,c,a,t,rt): return ctx.load(a[0])
@model(r'<.* as std::default::Default>::default$')
def m_default(ctx,c,a,t,rt):
    m=re.match(r'<(.*) as',c); ty=m.group(1)
    if ty in INT_TYPES: return 0
    if ty=='bool': return False
    if 'BigUint' in ty or 'BigInt' in ty: return 0
    raise Unsupported(c)
@model(r'<\(.*\) as std::convert::Into<\[.*\]>>::into$')
def m_tupinto(ctx,c,a,t,rt): return a[0]
@model(r'<&?(mut )?\[.*\] as std::convert::(TryFrom|TryInto)<.*>>::try_(from|into)$')
def m_tryfrom(ctx,c,a,t,rt):
    m=re.search(r'; (\d+)\]',c)
    n=int(m.group(1))
    s=slice_of(ctx,a[0])
    if s.meta[1]!=n: return Enum(1,'Err',(Opaque('TryFromSliceError'),))
    if rt and rt.startswith('std::result::Result<['): return Enum(0,'Ok',(tuple(ctx.load(s)),))
    cell=Cell(tuple(ctx.load(s)))
    return Enum(0,'Ok',(Ref(cell),))
@model(r'<\[.*\] as std::(cmp::PartialEq)(<.*>)?>::(eq|ne)$|<&\[.*\] as std::cmp::PartialEq.*>::(eq|ne)$|<std::vec::Vec<u8> as std::cmp::PartialEq.*>::(eq|ne)$')
def m_sliceeq(ctx,c,a,t,rt):
    m=re.match(r'<&*(?:mut )?(.*?) as std::cmp::PartialEq',c)
    em=re.match(r'\[(.*?)(; [^;\]]*)?\]$',m.group(1)) if m else None
    if em and em.group(1) not in INT_TYPES: return stdmodel2.m_eqgen(ctx,c,a,t,rt)
    x=ctx.seq(derefall(ctx,a[0])); y=ctx.seq(derefall(ctx,a[1]))
    r=len(x)==len(y)
    if r:
        for p,q in zip(x,y):
            e=ctx.binop('Eq','u64',p,q)
            if not ctx.truth(e,'eq'): r=False; break
    return r if c.endswith('eq') else not r

# ---------------------------------------------------------------- num_bigint (exact integers)
def bigop(ctx,op,x,y):
    if isinstance(x,int) and isinstance(y,int):
        if op=='add': return x+y
        if op=='sub': return x-y
        if op=='mul': return x*y
    return ctx.dom.bigop(ctx,op,x,y)
BIG=r'num_bigint::(?:BigUint|BigInt)'
@model(r'<&?(%s|u32|u64|usize|i32|i64) as std::ops::(Add|Sub|Mul|Div|Rem)(<.*>)?>::(add|sub|mul|div|rem)$'%BIG)
def m_big2(ctx,c,a,t,rt):
    op=c.split('::')[-1]
    x,y=derefall(ctx,a[0]),derefall(ctx,a[1])
    unsigned='BigUint' in c
    if op in('add','mul'): return bigop(ctx,op,x,y)
    if op=='sub':
        if isinstance(x,int) and isinstance(y,int):
            if unsigned and x<y: raise Panic('BigUint subtraction underflow')
            return x-y
        if unsigned: return ctx.dom.bigusub(ctx,x,y)
        return bigop(ctx,'sub',x,y)
    if isinstance(x,int) and isinstance(y,int):
        if y==0: raise Panic('division by zero')
        q=abs(x)//abs(y)
        if (x<0)!=(y<0): q=-q
        return q if op=='div' else x-q*y
    return ctx.dom.bigdiv(ctx,op,x,y,unsigned)
@model(r'<%s as std::ops::(Add|Sub|Mul|Div|Rem|Shl|Shr)Assign(<.*>)?>::\w+$'%BIG)
def m_bigassign(ctx,c,a,t,rt):
    op=re.search(r'std::ops::(\w+)Assign',c).group(1).lower()
    c2='<'+('num_bigint::BigUint' if 'BigUint as' in c else 'num_bigint::BigInt')+' as std::ops::X>::'+op
    r=(m_bigsh if op in('shl','shr') else m_big2)(ctx,c2,[ctx.load(a[0]),a[1]],t,rt)
    ctx.store(a[0],r); return ()
@model(r'<&?%s as std::ops::(Shr|Shl|BitAnd|BitOr|BitXor)(<.*>)?>::\w+$'%BIG)
def m_bigsh(ctx,c,a,t,rt):
    op=c.split('::')[-1]; x,y=derefall(ctx,a[0]),derefall(ctx,a[1])
    if isinstance(x,int) and isinstance(y,int):
        return {'shr':lambda:x>>y,'shl':lambda:x<<y,'bitand':lambda:x&y,'bitor':lambda:x|y,'bitxor':lambda:x^y}[op]()
    return ctx.dom.bigsh(ctx,op,x,y)
@model(r'<%s as std::ops::Neg>::neg$|<&%s as std::ops::Neg>::neg$'%(BIG,BIG))
def m_bigneg(ctx,c,a,t,rt):
    return bigop(ctx,'sub',0,derefall(ctx,a[0]))
@model(r'<&*%s as std::cmp::(PartialEq|PartialOrd|Ord)(<.*>)?>::\w+$'%BIG)
def m_bigcmp(ctx,c,a,t,rt):
    op=c.split('::')[-1]; x,y=derefall(ctx,a[0]),derefall(ctx,a[1])
    if isinstance(x,int) and isinstance(y,int):
        if op=='cmp': return Enum(*STD_ENUMS['Less' if x<y else 'Greater' if x>y else 'Equal'])
        if op=='partial_cmp': return Some(Enum(*STD_ENUMS['Less' if x<y else 'Greater' if x>y else 'Equal']))
        return {'eq':x==y,'ne':x!=y,'lt':x<y,'le':x<=y,'gt':x>y,'ge':x>=y}[op]
    return ctx.dom.bigcmp(ctx,op,x,y)
@model(r'<%s as std::convert::From<.*>>::from$'%BIG)
def m_bigfrom(ctx,c,a,t,rt):
    v=derefall(ctx,a[0])
    if isinstance(v,bool): v=int(v)
    return v
@model(r'num_bigint::BigUint::(from_slice|new)$')
def m_fromslice(ctx,c,a,t,rt):
    v=ctx.seq(derefall(ctx,a[0]))
    if all(isinstance(x,int) for x in v): return sum(x<<(32*i) for i,x in enumerate(v))
    raise Unsupported(c)
@model(r'num_bigint::BigUint::(from_bytes_le|from_bytes_be)$')
def m_frombytes(ctx,c,a,t,rt):
    v=ctx.seq(derefall(ctx,a[0]))
    if c.endswith('be'): v=v[::-1]
    if all(isinstance(x,int) for x in v): return sum(x<<(8*i) for i,x in enumerate(v))
    return ctx.dom.big_frombytes(ctx,v)
@model(r'num_bigint::BigUint::(to_bytes_le|to_bytes_be)$')
def m_tobytes(ctx,c,a,t,rt):
    x=derefall(ctx,a[0])
    if isinstance(x,int):
        b=x.to_bytes(max(1,(x.bit_length()+7)//8),'little')
        return VecVal(b if c.endswith('le') else b[::-1])
    return ctx.dom.big_tobytes(ctx,x,c.endswith('le'))
@model(r'num_bigint::BigUint::to_u32_digits$')
def m_tou32(ctx,c,a,t,rt):
    x=derefall(ctx,a[0])
    if isinstance(x,int):
        return VecVal(tuple((x>>(32*i))&0xffffffff for i in range((x.bit_length()+31)//32)))
    raise Unsupported(c)
@model(r'num_bigint::BigInt::from_bytes_le$')
def m_ifrombytes(ctx,c,a,t,rt):
    v=ctx.seq(derefall(ctx,a[1])); s=a[0]
    if all(isinstance(x,int) for x in v):
        n=sum(x<<(8*i) for i,x in enumerate(v))
        return -n if s.name=='Minus' else n
    n=ctx.dom.big_frombytes(ctx,v)
    return bigop(ctx,'sub',0,n) if s.name=='Minus' else n
@model(r'num_bigint::(BigUint|BigInt)::pow$|<.*%s as num_traits::Pow<.*>>::pow$|num_traits::pow::<%s>$'%(BIG,BIG))
def m_bigpow(ctx,c,a,t,rt):
    x,y=derefall(ctx,a[0]),derefall(ctx,a[1])
    if isinstance(x,int) and isinstance(y,int): return x**y
    return ctx.dom.bigpow(ctx,x,y)
@model(r'num_bigint::BigUint::modpow$|num_bigint::BigInt::modpow$')
def m_modpow(ctx,c,a,t,rt):
    x,y,z=[derefall(ctx,q) for q in a]
    if all(isinstance(q,int) for q in(x,y,z)): return pow(x,y,z)
    raise Unsupported(c)
@model(r'num_bigint::BigUint::bits$|num_bigint::BigInt::bits$')
def m_bits(ctx,c,a,t,rt):
    x=derefall(ctx,a[0])
    if isinstance(x,int): return abs(x).bit_length()
    return ctx.dom.bigbits(ctx,x)
@model(r'num_bigint::BigUint::bit$')
def m_bit(ctx,c,a,t,rt):
    x=derefall(ctx,a[0])
    if isinstance(x,int) and isinstance(a[1],int): return bool((x>>a[1])&1)
    return ctx.dom.bigbit(ctx,x,a[1])
@model(r'num_bigint::BigUint::set_bit$')
def m_setbit(ctx,c,a,t,rt):
    x=ctx.load(a[0])
    if isinstance(x,int) and isinstance(a[1],int) and isinstance(a[2],bool):
        ctx.store(a[0],(x|(1<<a[1])) if a[2] else (x&~(1<<a[1]))); return ()
    ctx.store(a[0],ctx.dom.bigsetbit(ctx,x,a[1],a[2])); return ()
@model(r'num_bigint::BigUint::trailing_zeros$')
def m_tz(ctx,c,a,t,rt):
    x=derefall(ctx,a[0])
    if isinstance(x,int): return NONE if x==0 else Some((x&-x).bit_length()-1)
    raise Unsupported(c)
@model(r'num_bigint::BigUint::sqrt$|num_bigint::BigInt::sqrt$')
def m_bsqrt(ctx,c,a,t,rt):
    import math
    x=derefall(ctx,a[0])
    if isinstance(x,int): return math.isqrt(x)
    raise Unsupported(c)
@model(r'<%s as num_bigint::ToBigInt>::to_bigint$|<%s as num_bigint::ToBigUint>::to_biguint$'%(BIG,BIG))
def m_tobigint(ctx,c,a,t,rt):
    return Some(derefall(ctx,a[0]))
@model(r'num_bigint::BigInt::to_biguint$')
def m_tobiguint(ctx,c,a,t,rt):
    x=derefall(ctx,a[0])
    if isinstance(x,int): return NONE if x<0 else Some(x)
    return ctx.dom.to_biguint(ctx,x)
@model(r'num_bigint::BigInt::sign$')
def m_sign(ctx,c,a,t,rt):
    x=derefall(ctx,a[0])
    if isinstance(x,int): return Enum(*STD_ENUMS['Sign::Minus' if x<0 else 'Sign::Plus' if x>0 else 'Sign::NoSign'])
    return ctx.dom.bigsign(ctx,x)
@model(r'<num_bigint::Sign as std::cmp::PartialEq>::(eq|ne)$')
def m_signeq(ctx,c,a,t,rt):
    x,y=derefall(ctx,a[0]),derefall(ctx,a[1])
    return (x.idx==y.idx)==c.endswith('eq')
@model(r'<%s as num_traits::(Zero|One)>::(zero|one|is_zero|is_one)$'%BIG)
def m_zero(ctx,c,a,t,rt):
    op=c.split('::')[-1]
    if op=='zero': return 0
    if op=='one': return 1
    x=derefall(ctx,a[0])
    k=0 if op=='is_zero' else 1
    if isinstance(x,int): return x==k
    return ctx.dom.bigcmp(ctx,'eq',x,k)
@model(r'rand::thread_rng$')
def m_rng(ctx,c,a,t,rt): return Opaque('rng')
@model(r'<.* as num_bigint::RandBigInt>::gen_biguint$')
def m_genbig(ctx,c,a,t,rt): return ctx.dom.rand_big(ctx,a[1])
@model(r'<.* as rand::RngCore>::fill_bytes$')
def m_fillbytes(ctx,c,a,t,rt):
    s=slice_of(ctx,a[1]); ctx.store(s,tuple(ctx.dom.rand_bytes(ctx,s.meta[1]))); return ()

import stdmodel2
