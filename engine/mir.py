"""Parser for the textual MIR that rustc prints for the real crate (-Zunpretty=mir).

Nothing is hand-transcribed: every run regenerates the dump from /repo's current
working tree.  The parser keeps every statement and terminator except
StorageLive/StorageDead, ConstEvalCounter, nop, drops (treated as goto) and the
unwind (panic clean-up) edges."""
import re, os

class MirError(Exception):
    pass

INT_TYPES = {'u8':(8,0),'u16':(16,0),'u32':(32,0),'u64':(64,0),'u128':(128,0),'usize':(64,0),
             'i8':(8,1),'i16':(16,1),'i32':(32,1),'i64':(64,1),'i128':(128,1),'isize':(64,1)}

def split_top(s, sep=','):
    out=[];depth=0;cur='';i=0;n=len(s)
    while i<n:
        c=s[i]
        if c=='"':
            j=i+1
            while s[j]!='"':
                if s[j]=='\\': j+=1
                j+=1
            cur+=s[i:j+1]; i=j+1; continue
        if c=="'" and i+2<n and (s[i+2]=="'" or s[i+1]=='\\'):
            j=s.index("'",i+2 if s[i+1]!='\\' else i+3)
            cur+=s[i:j+1]; i=j+1; continue
        if c in '([{<': depth+=1
        elif c in ')]}': depth-=1
        elif c=='>' and s[i-1] not in '-=': depth-=1
        if c==sep and depth==0:
            out.append(cur.strip()); cur=''
        else: cur+=c
        i+=1
    if cur.strip(): out.append(cur.strip())
    return out

def find_close(s,i):
    """index of the bracket closing s[i]"""
    depth=0;n=len(s)
    while i<n:
        c=s[i]
        if c=='"':
            j=i+1
            while s[j]!='"':
                if s[j]=='\\': j+=1
                j+=1
            i=j+1; continue
        if c in '([{': depth+=1
        elif c in ')]}':
            depth-=1
            if depth==0: return i
        i+=1
    raise MirError('unbalanced: '+s[:80])

class Place:
    __slots__=('local','projs')
    def __init__(self,l,p): self.local=l; self.projs=tuple(p)
    def __repr__(self): return f'P(_{self.local}{self.projs})'

def parse_place(s):
    p,rest=_place(s)
    if rest.strip(): raise MirError('place rest: %r in %r'%(rest,s))
    return p

_loc=re.compile(r'_(\d+)')
def _place(s):
    s=s.lstrip()
    if s.startswith('_'):
        m=_loc.match(s)
        loc=int(m.group(1)); projs=[]; s=s[m.end():]
    elif s.startswith('(*'):
        j=find_close(s,0)
        p,r=_place(s[2:j])
        if r.strip(): raise MirError('deref '+s)
        loc,projs=p.local,list(p.projs)+[('deref',)]
        s=s[j+1:]
    elif s.startswith('('):
        j=find_close(s,0)
        inner=s[1:j]
        p,r=_place(inner)
        r=r.lstrip() if not r.startswith('.') else r
        m=re.match(r'\.(\d+): (.*)$',r,re.S)
        if m:
            loc,projs=p.local,list(p.projs)+[('field',int(m.group(1)),m.group(2))]
        elif r.startswith('as '):
            loc,projs=p.local,list(p.projs)+[('downcast',r[3:].strip())]
        else: raise MirError('place: '+s)
        s=s[j+1:]
    else: raise MirError('place: '+s)
    while s.startswith('['):
        j=find_close(s,0)
        ins=s[1:j]
        m=_loc.fullmatch(ins)
        if m: projs.append(('index',int(m.group(1))))
        else:
            m=re.fullmatch(r'(-?)(\d+) of (\d+)',ins)
            if m: projs.append(('constidx',int(m.group(2)),m.group(1)=='-'))
            else:
                m=re.fullmatch(r'(\d+):(-?)(\d*)',ins)
                if not m: raise MirError('index '+ins)
                projs.append(('subslice',int(m.group(1)),int(m.group(3) or 0),m.group(2)=='-' or not m.group(3)))
        s=s[j+1:]
    return Place(loc,projs),s

def parse_operand(s):
    s=s.strip()
    if s.startswith('no_retag '): s=s[9:]
    if s.startswith('copy '): return ('copy',parse_place(s[5:]))
    if s.startswith('move '): return ('move',parse_place(s[5:]))
    if s.startswith('const '): return ('const',parse_const(s[6:]))
    # printed function items / bare paths
    return ('const',('path',s))

_intlit=re.compile(r'(-?\d+)_(u8|u16|u32|u64|u128|usize|i8|i16|i32|i64|i128|isize)$')
def parse_const(s):
    s=s.strip()
    m=_intlit.fullmatch(s)
    if m: return ('int',int(m.group(1)),m.group(2))
    if s=='true': return ('bool',True)
    if s=='false': return ('bool',False)
    if s=='()': return ('unit',)
    if s.startswith('"') or s.startswith('b"'): return ('str',s)
    m=re.fullmatch(r"'(.*)'",s)
    if m: return ('str',s)
    m=re.fullmatch(r'(?:core::num::<impl )?(u8|u16|u32|u64|u128|usize|i8|i16|i32|i64|i128|isize)>?::(MAX|MIN|BITS)',s)
    if m:
        w,sg=INT_TYPES[m.group(1)]
        if m.group(2)=='BITS': return ('int',w,'u32')
        if m.group(2)=='MAX': v=(1<<(w-sg))-1
        else: v=-(1<<(w-1)) if sg else 0
        return ('int',v,m.group(1))
    return ('path',s)

BINOPS={'Add','Sub','Mul','Div','Rem','BitAnd','BitOr','BitXor','Shl','Shr','Eq','Ne','Lt','Le','Gt','Ge',
        'AddWithOverflow','SubWithOverflow','MulWithOverflow','AddUnchecked','SubUnchecked','MulUnchecked','ShlUnchecked','ShrUnchecked','Cmp','Offset'}
UNOPS={'Not','Neg','PtrMetadata'}

def parse_rvalue(s):
    s=s.strip()
    m=re.match(r'(\w+)\(',s)
    if m and (m.group(1) in BINOPS or m.group(1) in UNOPS) and find_close(s,m.end()-1)==len(s)-1:
        args=[parse_operand(x) for x in split_top(s[m.end():-1])]
        if m.group(1) in UNOPS: return ('un',m.group(1),args[0])
        return ('bin',m.group(1),args[0],args[1])
    if s.startswith('discriminant('):
        return ('discr',parse_place(s[len('discriminant('):-1]))
    if s.startswith('Len('):
        return ('len',parse_place(s[4:-1]))
    if s.startswith('&raw '):
        t=re.sub(r'^&raw (const|mut) (\(fake\) )?','',s)
        return ('ref',parse_place(t))
    if s.startswith('&'):
        t=s[1:]
        for pre in ('mut ','fake shallow ','fake ','two_phase '):
            if t.startswith(pre): t=t[len(pre):]
        return ('ref',parse_place(t))
    if s.startswith(('copy ','move ','no_retag ','const ')):
        # operand or cast
        m=re.search(r' as (.*) \((\w+)(\(.*\))?\)$',s)
        if m and not s.startswith('const "'):
            return ('cast',parse_operand(s[:m.start()]),m.group(1),m.group(2)+(m.group(3) or ''))
        return ('use',parse_operand(s))
    if s.startswith('['):
        ins=s[1:-1]
        parts=split_top(ins,';')
        if len(parts)==2: return ('repeat',parse_operand(parts[0]),parts[1])
        return ('array',[parse_operand(x) for x in split_top(ins)])
    if s.startswith('('):
        return ('tuple',[parse_operand(x) for x in split_top(s[1:-1])])
    if s.startswith('{closure@'):
        j=find_close(s,0)
        name=s[:j+1]; rest=s[j+1:].strip()
        caps=[]
        if rest.startswith('{'):
            for x in split_top(rest[1:-1]):
                caps.append(parse_operand(x.split(': ',1)[1]))
        return ('closure',name,caps)
    # struct / enum aggregate
    if s.endswith('}'):
        i=s.index(' { ')
        name=s[:i]
        fields=[]
        for x in split_top(s[i+3:-1].strip()):
            k,v=x.split(': ',1); fields.append((k,parse_operand(v)))
        return ('adt',name,fields)
    if s.endswith(')'):
        # find matching open paren from the end
        depth=0
        for i in range(len(s)-1,-1,-1):
            if s[i]==')': depth+=1
            elif s[i]=='(':
                depth-=1
                if depth==0: break
        return ('adt',s[:i],[(str(k),parse_operand(x)) for k,x in enumerate(split_top(s[i+1:-1]))])
    return ('adt',s,[])

class Fn:
    __slots__=('name','args','ret','locals','blocks','raw','isconst','constval','cname')
    def __repr__(self): return '<Fn %s>'%self.name

_call_tail=re.compile(r'\) -> (\[return: bb(\d+)(?:, unwind[^\]]*)?\]|bb\d+|unwind .*)$')

def parse_term_or_stmt(s):
    """s without trailing ';'"""
    if s.startswith(('StorageLive','StorageDead','ConstEvalCounter','nop','PlaceMention','FakeRead','AscribeUserType','Coverage','Retag','BackwardIncompatibleDropHint')): return None
    if s=='return': return ('return',)
    if s in('unreachable',): return ('unreachable',)
    if s.startswith(('resume','terminate','abort')): return ('resume',)
    if s.startswith('goto -> '): return ('goto',int(s[10:]))
    if s.startswith(('falseEdge','falseUnwind')):
        m=re.search(r'real: bb(\d+)',s); return ('goto',int(m.group(1)))
    if s.startswith('switchInt('):
        j=find_close(s,9)
        op=parse_operand(s[10:j])
        tg=s[s.index('[',j)+1:-1]
        cases=[];other=None
        for t in tg.split(', '):
            k,v=t.split(': ')
            v=int(v[2:])
            if k=='otherwise': other=v
            else: cases.append((int(k),v))
        return ('switch',op,cases,other)
    if s.startswith('assert('):
        j=find_close(s,6)
        parts=split_top(s[7:j])
        c=parts[0]; neg=False
        if c.startswith('!'): neg=True; c=c[1:]
        m=re.search(r'success: bb(\d+)',s[j:])
        return ('assert',parse_operand(c),neg,parts[1] if len(parts)>1 else '',int(m.group(1)))
    if s.startswith('drop('):
        m=re.search(r'return: bb(\d+)',s); return ('goto',int(m.group(1)))
    m=_call_tail.search(s)
    if m:
        eq=s.index(' = ')
        dest=parse_place(s[:eq]); body=s[eq+3:m.start()+1]
        depth=0
        for i in range(len(body)-1,-1,-1):
            if body[i]==')': depth+=1
            elif body[i]=='(':
                depth-=1
                if depth==0: break
        callee=body[:i]; args=[parse_operand(x) for x in split_top(body[i+1:-1])]
        return ('call',dest,callee,args,int(m.group(2)) if m.group(2) else None)
    if s.startswith('discriminant('):
        raise MirError('set discriminant '+s)
    eq=s.index(' = ')
    return ('assign',parse_place(s[:eq]),parse_rvalue(s[eq+3:]))

def parse_dump(text):
    fns={}
    order=[]
    lines=text.split('\n')
    i=0;n=len(lines)
    while i<n:
        l=lines[i]
        if l.startswith(('fn ','const ','static ','unsafe fn ','async fn ')):
            one=re.match(r'(?:const|static) (.*): ([^=]*) = (const .*);$',l)
            if one:
                f=Fn(); f.name=one.group(1); f.args=[]; f.ret=one.group(2); f.isconst=True
                f.constval=one.group(3); f.raw=None; f.blocks=None; f.locals={}; f.cname=None
                fns[f.name]=f; i+=1; continue
            j=i+1
            while lines[j]!='}': j+=1
            f=Fn(); f.constval=None; f.cname=None
            h=l
            if h.startswith('fn ') or h.startswith('unsafe fn '):
                h=h[h.index('fn ')+3:]
                f.isconst=False
                # name up to '(_1' or '()'
                k=h.rindex(') -> ')
                # find the open paren that matches
                depth=0
                for q in range(k,-1,-1):
                    if h[q]==')': depth+=1
                    elif h[q]=='(':
                        depth-=1
                        if depth==0: break
                f.name=h[:q]
                f.args=[a.split(': ',1)[1] for a in split_top(h[q+1:k])]
                f.ret=h[k+5:].rstrip(' {')
            else:
                f.isconst=True
                h=re.sub(r'^(const|static) (mut )?','',h)
                m=re.match(r'(.*): (.*) = \{$',h)
                # name may contain ': ' inside impl spans: split at last ': ' before ' = {'
                body=h[:-4]
                # find split: last ': ' at depth 0
                depth=0;pos=None
                for q,c in enumerate(body):
                    if c in '([{<': depth+=1
                    elif c in ')]}': depth-=1
                    elif c=='>' and body[q-1] not in '-=': depth-=1
                    elif c==':' and depth==0 and body[q:q+2]==': ': pos=q; break
                f.name=body[:pos]; f.ret=body[pos+2:]; f.args=[]
            f.raw=lines[i+1:j]; f.blocks=None; f.locals=None
            # const fn appears twice (runtime + ctfe): keep the first
            if f.name not in fns: fns[f.name]=f
            i=j+1
        else: i+=1
    return fns

def parse_body(f):
    if f.blocks is not None: return
    locs={}
    for k,a in enumerate(f.args): locs[k+1]=a
    blocks={}
    cur=None
    for l in f.raw:
        t=l.strip()
        if cur is None:
            m=re.match(r'let (?:mut )?_(\d+): (.*);$',t)
            if m: locs[int(m.group(1))]=m.group(2); continue
            m=re.match(r'bb(\d+)(?: \(cleanup\))?: \{$',t)
            if m:
                cleanup='(cleanup)' in t
                cur=[]; blocks[int(m.group(1))]=None if cleanup else cur
                continue
        else:
            if t=='}':
                cur=None; continue
            if not t.endswith(';'): raise MirError('stmt '+t)
            cur.append(t[:-1])
    f.locals=locs
    f.blocks={}
    for b,st in blocks.items():
        if st is None: continue
        out=[]
        for s in st:
            try: x=parse_term_or_stmt(s)
            except (MirError,ValueError,IndexError,AttributeError) as e:
                x=('bad',s,str(e))
            if x is not None: out.append(x)
        f.blocks[b]=out

# ---------------------------------------------------------------- names
_implre=re.compile(r'<impl at ([^:>]+):(\d+):(\d+): (\d+):(\d+)>')

def impl_header(root, path, line, col, cache={}):
    key=(root,path,line,col)
    if key in cache: return cache[key]
    p=os.path.join(root,path)
    src=open(p).read().split('\n')
    txt='\n'.join(src[line-1:line+12])[col-1:]
    r=None
    if txt.startswith('impl'):
        h=txt[4:txt.index('{')].strip()
        if h.startswith('<'):
            d=0
            for q,c in enumerate(h):
                if c=='<': d+=1
                elif c=='>':
                    d-=1
                    if d==0: break
            h=h[q+1:].strip()
        h=re.sub(r'\s+',' ',h)
        if ' for ' in h:
            tr,ty=h.split(' for ',1); r=('trait',tr.strip(),ty.strip())
        else: r=('inherent',None,h)
    else:
        # a derive: the name of the following struct
        m=re.match(r'(\w+)',txt)
        rest='\n'.join(src[line-1:line+30])
        mm=re.search(r'(?:struct|enum) (\w+)',rest)
        r=('trait',m.group(1),mm.group(1) if mm else '?')
    cache[key]=r
    return r

class Crate:
    def field_order(self,ty):
        """declaration order of the fields of a struct, from its aggregate expressions"""
        if ty not in self._fo:
            m=re.search(r'= '+re.escape(ty)+r' \{ ([^{}]*) \};',self.text)
            self._fo[ty]=re.findall(r'(?:^|, )(\w+): (?=move|copy|const)',m.group(1)) if m else None
        return self._fo[ty]
    def __init__(self, text, root='/repo'):
        self.root=root; self.text=text; self._fo={}
        self.fns=parse_dump(text)
        self.by_canon={}
        self.rc={}
        self.trait={}     # method -> list of Fn
        self.closures={}
        for name,f in self.fns.items():
            c=name
            m=_implre.search(name)
            if m and not f.isconst and f.args and '{closure' in name:
                pass
            if m:
                k=impl_header(root,m.group(1),int(m.group(2)),int(m.group(3)))
                pre=name[:m.start()]; post=name[m.end():]
                if k[0]=='inherent':
                    c=pre+k[2]+post
                    f.cname=c
                    self.by_canon[c]=f
                else:
                    c='<%s%s as %s>%s'%(pre,k[2],k[1],post)
                    f.cname=c
                    self.by_canon[c]=f
                    meth=post.split('::')[1] if post.startswith('::') else post
                    if post.count('::')==1: self.trait.setdefault(meth,[]).append(f)
            else:
                f.cname=name
                self.by_canon[name]=f
            if '{closure#' in name and f.args:
                mm=re.search(r'\{closure@[^}]*\}',f.args[0])
                if mm and name.endswith('}'): self.closures[mm.group(0)]=f
    def get(self,canon):
        f=self.by_canon.get(canon)
        if f is not None and f.blocks is None and f.constval is None: parse_body(f)
        return f
    def resolve_call(self, callee, argtypes):
        """callee text -> (canonical name, Fn or None)"""
        k=(callee,tuple(argtypes)) if callee.startswith('<') else callee
        r=self.rc.get(k)
        if r is None: r=self.rc[k]=self.resolve_call_(callee,argtypes)
        return r
    def resolve_call_(self, callee, argtypes):
        f=self.by_canon.get(callee)
        if f: return callee,self.get(callee)
        if callee.startswith('<'):
            # <A as Trait<B>>::method
            m=re.match(r'<(.*) as (.*)>::(\w+)(?:::<.*>)?$',callee)
            if m:
                meth=m.group(3)
                tr=m.group(2)
                at=[norm_ty(a) for a in argtypes]
                for f in self.trait.get(meth,()):
                    if [norm_ty(a) for a in f.args]==at and trait_base(f.cname)==trait_name(tr):
                        return f.cname,self.get(f.cname)
            return callee,None
        # strip generics
        c=strip_generics(callee)
        f=self.by_canon.get(c)
        if f: return c,self.get(c)
        return callee,None

def trait_name(tr): return tr.split('<')[0].split('::')[-1]
def trait_base(cname):
    m=re.match(r'<(.*?) as (.*?)>::',cname)
    t=m.group(2) if m else ''
    return t.split('<')[0].split('::')[-1].strip()

def norm_ty(t):
    t=re.sub(r"'\w+ ",'',t)
    return t.replace(' ','')

def strip_generics(s):
    out='';d=0;i=0
    while i<len(s):
        if s.startswith('::<',i) and d==0:
            d=1;i+=3;continue
        c=s[i]
        if d>0:
            if c=='<': d+=1
            elif c=='>' and s[i-1] not in '-=': d-=1
        else: out+=c
        i+=1
    return out
