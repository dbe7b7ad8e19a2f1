"""C++ types as the verifier sees them: layouts come from clang's own record layout dump."""
import re
import z3

def norm(n):
    n=re.sub(r'\b(class|struct|enum|union) ','',n)
    n=n.replace('(anonymous namespace)::','').replace('{anonymous}::','')
    n=re.sub(r'\bconst ([\w:]+(?:<[^<>]*>)?)',r'\1 const',n) if re.search(r'\bconst [\w:]',n) else n
    n=n.replace('> >','>>').replace('> >','>>').replace(' >','>')
    n=re.sub(r'\s*([*&,<])\s*',lambda m:{',':', '}.get(m.group(1),m.group(1)),n)
    n=n.replace('unsigned int','unsigned').replace('_Bool','bool')
    n=re.sub(r'>\s+>','>>',n)
    n=re.sub(r'\bsize_t\b','unsigned long',n)
    n=n.strip()
    if 'std::' in n: n=norm_std(n)
    return n
def norm_std(n):
    n=re.sub(r'std::(?:__cxx11::)?basic_string<char(?:, std::char_traits<char>)?(?:, std::allocator<char>)?>','std::string',n)
    n=re.sub(r'std::basic_string_view<char(?:, std::char_traits<char>)?>','std::string_view',n)
    while True:
        m=re.search(r', std::allocator<((?:[^<>]|<[^<>]*>)*)>>',n)
        if not m or not n[:m.start()].endswith(m.group(1)): return n
        n=n[:m.start()]+n[m.end()-1:]

INTS={'char':(8,1),'signed char':(8,1),'unsigned char':(8,0),'short':(16,1),'unsigned short':(16,0),'int':(32,1),'unsigned':(32,0),
 'long':(64,1),'unsigned long':(64,0),'long long':(64,1),'unsigned long long':(64,0),'size_t':(64,0),'wchar_t':(32,1)}
FLOATS={'float':4,'double':8,'long double':16}

class Layouts:
    def __init__(s): s.rec={}
    def parse(s,text):
        cur=None;lines=text.split('\n');i=0
        for L in lines:
            if '*** Dumping AST Record Layout' in L: cur=None;continue
            m=re.match(r'^\s*(\d+)(?::[\d-]+)? \|( +)(.*)$',L)
            if m:
                off=int(m.group(1));ind=(len(m.group(2))-1)//2;txt=m.group(3).rstrip()
                if cur is None: cur=dict(name=norm(txt.replace(' (empty)','')),fields=[],size=None)
                elif ind==1: cur['fields'].append((off,txt))
                continue
            m=re.match(r'^\s*\| \[sizeof=(\d+)',L)
            if m and cur:
                cur['size']=int(m.group(1))
                if 'anonymous at' not in cur['name'] or True: s.rec[cur['name']]=cur
                cur=None
        return s

class T:
    """kind: int bool float ptr sv str vec rec exp opt opaque map"""
    def __init__(s,name,kind,size,**k):
        s.name=name;s.kind=kind;s.size=size;s.el=None;s.fields=None;s._sort=None
        for a,b in k.items(): setattr(s,a,b)
    def __repr__(s): return 'T(%s)'%s.name
    @property
    def owner(s):
        """does the type own resources (needs destruction exactly once)?"""
        if s.kind in('str','vec','map'): return True
        if s.kind in('exp','opt'): return any(f.owner for f in s.payload)
        if s.kind=='rec': return getattr(s,'forced_owner',False) or any(f[2].owner for f in s.fields)
        return False

def split_targs(n):
    """template arguments of the outermost template in n"""
    i=n.index('<');d=0;out=[];cur=''
    for ch in n[i+1:]:
        if ch in '<(': d+=1
        if ch in '>)':
            if d==0: break
            d-=1
        if ch==',' and d==0: out.append(cur.strip());cur='';continue
        cur+=ch
    if cur.strip(): out.append(cur.strip())
    return out

# records that own what their pointer members point at
OWNING=('coil::UniquePtr<','user::Sum')
FNP=re.compile(r'(.*?)\s*\(\*\)\((.*)\)(?: noexcept)?')
MEMP=re.compile(r'(.*?)\s*\(([\w:<>]+)::\*\)\((.*)\)(?: const)?(?: noexcept)?')
def sig_params(t):
    return [x for x in split_targs('<'+t+'>') if x!='void']
class Types:
    def __init__(s,lay):
        s.lay=lay;s.cache={}
        s.by_base={};s.lambda_hook=None
    def get(s,name):
        name=norm(name)
        name=re.sub(r'\s*\bconst$','',name).strip()
        if name.startswith('const '): name=name[6:]
        if name in s.cache: return s.cache[name]
        t=s._make(name);s.cache[name]=t;return t
    def _make(s,n):
        if n in INTS: return T(n,'int',INTS[n][0]//8,w=INTS[n][0],signed=bool(INTS[n][1]))
        if n=='bool': return T(n,'bool',1)
        if n in FLOATS: return T(n,'float',FLOATS[n])
        if n.endswith('*const'): n=n[:-5]
        m=FNP.fullmatch(n)
        if m and '{lambda' not in n[:m.start(2)]: return T(n,'ptr',8,to='fn:'+n,sig=(m.group(1),None,sig_params(m.group(2))))
        m=MEMP.fullmatch(n)
        if m and '{lambda' not in n[:m.start(3)]: return s.memptr(n,(m.group(1),m.group(2),sig_params(m.group(3))))
        if n.endswith('}') and '{lambda(' in n:
            t=s.lambda_hook(n) if s.lambda_hook else None
            return t or T(n,'opaque',None)
        if n.endswith('*') or n.endswith('&'):
            return T(n,'ptr',8,to=n.rstrip('&') if n.endswith('&') else n[:-1])
        if n=='coil::StringView': return T(n,'sv',16,po=0,lo=8)
        if n=='coil::String': return T(n,'str',s.lay.rec[n]['size'])
        if n.startswith('coil::Vector<'):
            el=split_targs(n)[0]
            size=s.lay.rec['coil::Buffer']['size']
            return T(n,'vec',size,elname=el)
        if n=='std::string': return T(n,'str',32)
        if n=='std::string_view': return T(n,'sv',16,po=8,lo=0)
        if n.startswith('std::vector<') and n.endswith('>') and n in s.lay.rec and n!='std::vector<bool>': return T(n,'vec',24,elname=split_targs(n)[0])
        if n.startswith('std::optional<') and n.endswith('>') and n in s.lay.rec:
            t=T(n,'opt',s.lay.rec[n]['size']);t.Tt=s.get(split_targs(n)[0]);t.payload=(t.Tt,);t.uoff=0;t.boff=t.Tt.size;return t
        if n in s.lay.rec: return s._rec(n,s.lay.rec[n])
        return T(n,'opaque',None)
    def memptr(s,n,sig,const0=False):
        """a pointer to a member function: the function and the adjustment of the object pointer"""
        fn=s.cache.setdefault('fn:'+n,T('fn:'+n,'ptr',8,to='fn:'+n,sig=sig))
        return T(n,'rec',16,fields=[(0,'fn',fn),(8,'adj',s.get('unsigned long'))],sig=sig,memptr=True,const0=const0)
    def el(s,t):
        if t.el is None: t.el=s.get(t.elname)
        return t.el
    def _rec(s,n,r):
        t=T(n,'rec',r['size']);s.cache[n]=t
        if n.startswith(OWNING): t.forced_owner=True
        fs=[]
        ents=[]
        for off,txt in r['fields']:
            if txt.endswith(' vtable pointer)') or 'vtable pointer' in txt:
                ents.append((off,'__vptr',T('vptr','ptr',8,to='vtable')));continue
            m=re.match(r'^(.*) \((?:primary |virtual )?base\)(?: \(empty\))?$',txt)
            if m:
                if '(empty)' in txt: continue
                ents.append((off,'__base',norm(m.group(1))));continue
            if '(empty)' in txt: continue
            if '(anonymous at' in txt:
                ents.append((off,'__union',norm(txt)));continue
            txt=txt.rstrip()
            k=txt.rfind(' ')
            ents.append((off,txt[k+1:],norm(txt[:k])))
        # Expected / Optional
        if n.startswith('coil::Expected<') and any(e[1]=='__union' for e in ents):
            a=split_targs(n);t.kind='exp'
            t.Tt=s.get(a[0]);t.Et=s.get(a[1]);t.payload=(t.Tt,t.Et)
            t.uoff=[e[0] for e in ents if e[1]=='__union'][0];t.boff=[e[0] for e in ents if e[1]=='m_hasValue'][0]
            return t
        if n.startswith('coil::Optional<') and any(e[1]=='__union' for e in ents):
            a=split_targs(n);t.kind='opt';t.Tt=s.get(a[0]);t.payload=(t.Tt,)
            t.uoff=[e[0] for e in ents if e[1]=='__union'][0];t.boff=[e[0] for e in ents if e[1]=='m_hasValue'][0]
            return t
        for i,(off,nm,ty) in enumerate(ents):
            if isinstance(ty,T): fs.append((off,nm,ty));continue
            ft=None
            if ty in INTS or ty=='bool' or ty in FLOATS or ty.endswith('*') or ty.endswith('&'): ft=s.get(ty)
            elif ty in s.lay.rec or ty.startswith('coil::'): ft=s.resolve(ty)
            else: ft=s.resolve(ty)
            if ft.kind=='opaque':
                nxt=ents[i+1][0] if i+1<len(ents) else r['size']
                sz=min(nxt-off,8)
                if nxt-off==16 and n.startswith('coil::detail::FunctionWrapper<'):
                    A=split_targs(n)
                    ft=s.memptr('member destroying the function of '+n,('void',n,[]),True) if 'destroy' in nm.lower() else s.memptr('member calling the function of '+n,('coil::Optional<coil::String>',n,A),True)
                    fs.append((off,nm,ft));continue
                if sz in(1,2,4,8):
                    if 4<sz and not ('*' in ty): sz=4 if sz==8 and not ty.endswith('Ptr') else sz
                    ft=T(ty,'int',sz,w=sz*8,signed=False) # enum or unknown scalar
            fs.append((off,nm,ft))
        t.fields=fs
        return t
    def resolve(s,ty):
        """names printed as written in the source (unqualified / aliased)"""
        g=s.get(ty)
        if g.kind!='opaque': return g
        for pre in('coil::','coil::detail::'):
            g2=s.get(pre+ty)
            if g2.kind!='opaque': return g2
        c=[k for k in s.lay.rec if k.endswith('::'+ty)]
        if len(c)==1: return s.get(c[0])
        return g
