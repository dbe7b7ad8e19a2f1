"""Parser for the subset of textual LLVM IR that clang -O0 emits for coil."""
import re, subprocess

class Ty:
    __slots__=('k','w','el','n','fs','name','packed')
    def __init__(s,k,w=0,el=None,n=0,fs=None,name=None,packed=False):
        s.k=k;s.w=w;s.el=el;s.n=n;s.fs=fs;s.name=name;s.packed=packed
    def __repr__(s):
        return {'i':'i%d'%s.w,'ptr':'ptr','void':'void','arr':'[%d x %r]'%(s.n,s.el),'st':'{%s}'%s.fs,'named':'%%%s'%s.name,'f':'f%d'%s.w,'fn':'fn'}.get(s.k,s.k)

VOID=Ty('void');PTR=Ty('ptr')
_ints={}
def I(w):
    if w not in _ints:_ints[w]=Ty('i',w)
    return _ints[w]
FL={'float':Ty('f',32),'double':Ty('f',64),'x86_fp80':Ty('f',80)}

TOK=re.compile(r'''\s*(?:;[^\n]*)?(c?"(?:[^"\\]|\\.)*"|[%@$](?:"[^"]*"|[-\w.$]+)|![\w.]*|#\d+|\.\.\.|[-+]?\d+\.\d+e[-+]?\d+|0x[KLMH]?[0-9A-Fa-f]+|-?\d+|[A-Za-z_][\w.]*|[()\[\]{}<>,=*:|])''')
def toks(s):
    out=[];i=0;n=len(s)
    while i<n:
        m=TOK.match(s,i)
        if not m:
            if s[i:].strip()=='' or s[i:].strip().startswith(';'): break
            raise SyntaxError('tok: '+s[i:i+60])
        out.append(m.group(1));i=m.end()
    return out

class Ins:
    __slots__=('op','res','ty','a','line')
    def __init__(s,op,res,ty,a,line=''): s.op=op;s.res=res;s.ty=ty;s.a=a;s.line=line
    def __repr__(s): return s.line.strip()

class Block:
    def __init__(s,name): s.name=name;s.ins=[]
class Func:
    def __init__(s,name): s.name=name;s.params=[];s.ret=None;s.blocks={};s.order=[];s.vararg=False;s.sret=None;s.dem=name;s.attrs=''
    def succs(s,b):
        t=s.blocks[b].ins[-1]
        if t.op=='br': return [t.a[0]] if len(t.a)==1 else [t.a[1],t.a[2]]
        if t.op=='switch': return [t.a[1]]+[d for _,d in t.a[2]]
        if t.op=='invoke': return [t.a['normal'],t.a['unwind']]
        return []
    def loops(s):
        """natural loops: header -> set of blocks (uses dominators)"""
        if hasattr(s,'_loops'): return s._loops
        rpo=[];seen=set()
        def dfs(b):
            st=[(b,iter(s.succs(b)))];seen.add(b)
            while st:
                x,it=st[-1]
                for y in it:
                    if y not in seen:
                        seen.add(y);st.append((y,iter(s.succs(y))));break
                else:
                    rpo.append(x);st.pop()
        dfs(s.order[0]);rpo.reverse()
        idx={b:i for i,b in enumerate(rpo)}
        preds={b:[] for b in rpo}
        for b in rpo:
            for y in s.succs(b): preds[y].append(b)
        idom={rpo[0]:rpo[0]};ch=True
        while ch:
            ch=False
            for b in rpo[1:]:
                new=None
                for p in preds[b]:
                    if p in idom:
                        if new is None:new=p
                        else:
                            x,y=p,new
                            while x!=y:
                                while idx[x]>idx[y]:x=idom[x]
                                while idx[y]>idx[x]:y=idom[y]
                            new=x
                if idom.get(b)!=new: idom[b]=new;ch=True
        def dom(a,b):
            while True:
                if a==b:return True
                if b==rpo[0]:return False
                b=idom[b]
        loops={};irr=False
        for b in rpo:
            for y in s.succs(b):
                if idx[y]<=idx[b]:
                    if not dom(y,b): irr=True;continue
                    body=loops.setdefault(y,{y});st=[b]
                    while st:
                        x=st.pop()
                        if x in body: continue
                        body.add(x);st.extend(preds[x])
        s._loops=loops;s.irreducible=irr
        return loops

PARAM_ATTR={'noundef','nonnull','noalias','writable','dead_on_unwind','zeroext','signext','returned','nocapture','readonly','inreg','immarg','nofree','writeonly','readnone','noreturn','nounwind'}
class Parser:
    def __init__(s): s.types={};s.globals={};s.funcs={};s.decls={}
    # --- token helpers
    def parse_ty(s,t,i):
        x=t[i]
        if x=='ptr': ty=PTR;i+=1
        elif x=='void': ty=VOID;i+=1
        elif x in FL: ty=FL[x];i+=1
        elif x=='label' or x=='metadata' or x=='token': ty=Ty(x);i+=1
        elif re.fullmatch(r'i\d+',x): ty=I(int(x[1:]));i+=1
        elif x=='[':
            n=int(t[i+1]);assert t[i+2]=='x';el,i=s.parse_ty(t,i+3);assert t[i]==']';i+=1;ty=Ty('arr',n=n,el=el)
        elif x=='<' and t[i+1]!='{':
            n=int(t[i+1]);el,i=s.parse_ty(t,i+3);i+=1;ty=Ty('vec',n=n,el=el)
        elif x in('{','<'):
            pk=x=='<'
            i+=2 if pk else 1;fs=[]
            while t[i]!='}':
                f,i=s.parse_ty(t,i);fs.append(f)
                if t[i]==',':i+=1
            i+=1
            if pk:i+=1
            ty=Ty('st',fs=fs,packed=pk)
        elif x[0]=='%': ty=Ty('named',name=unq(x));i+=1
        else: raise SyntaxError('ty %r'%x)
        # function type suffix:  ret (args)
        if i<len(t) and t[i]=='(' and False: pass
        return ty,i
    def attrs(s,t,i):
        out={}
        while i<len(t):
            x=t[i]
            if x in PARAM_ATTR: out[x]=True;i+=1
            elif x in('align',): i+=2
            elif x in('dereferenceable','dereferenceable_or_null','memory'):
                d=0;i+=1
                while True:
                    if t[i]=='(':d+=1
                    if t[i]==')':
                        d-=1
                        if d==0:break
                    i+=1
                i+=1
            elif x in('sret','byval','elementtype'):
                ty,i=s.parse_ty(t,i+2);assert t[i]==')';i+=1;out[x]=ty
            else: break
        return out,i
    def value(s,t,i,ty):
        x=t[i]
        if x[0]=='%' : return ('r',unq(x)),i+1
        if x[0]=='@': return ('g',unq(x)),i+1
        if x in('true','false'): return ('c',x=='true'),i+1
        if x=='null': return ('null',),i+1
        if x in('undef','poison'): return ('undef',),i+1
        if x=='zeroinitializer': return ('zero',ty),i+1
        if x=='getelementptr' :
            j=i+1
            while t[j]!='(': j+=1
            j+=1;bty,j=s.parse_ty(t,j);j+=1
            ops=[]
            while True:
                if t[j]=='inrange': j+=1
                oty,j=s.parse_ty(t,j);at,j=s.attrs(t,j);v,j=s.value(t,j,oty);ops.append((oty,v))
                if t[j]==',':j+=1
                else:break
            return ('gep',bty,ops),j+1
        if x in('ptrtoint','inttoptr','bitcast','trunc','sub','add'):
            d=0;j=i+1
            while True:
                if t[j]=='(':d+=1
                if t[j]==')':
                    d-=1
                    if d==0:break
                j+=1
            return ('cexpr',x,t[i+2:j]),j+1
        if x[0]=='c' and x[1:2]=='"': return ('str',unesc(x[2:-1])),i+1
        if x=='{' or x=='[' or x=='<':
            # aggregate constant
            end={'{':'}','[':']','<':'}' if t[i+1]=='{' else '>'}[x];j=i+1
            if x=='<' and t[j]=='{': j+=1
            vs=[]
            while t[j]!=end:
                ety,j=s.parse_ty(t,j);_,j=s.attrs(t,j);v,j=s.value(t,j,ety);vs.append((ety,v))
                if t[j]==',':j+=1
            j+=1
            if x=='<' and end=='}': j+=1
            return ('agg',vs),j
        if ty is not None and ty.k=='f': return ('fc',x),i+1
        if re.fullmatch(r'-?\d+',x):
            v=int(x)
            if ty.k=='i': v%=(1<<ty.w)
            return ('c',v),i+1
        raise SyntaxError('value %r in %s'%(x,' '.join(t)))
    def tv(s,t,i):
        ty,i=s.parse_ty(t,i);at,i=s.attrs(t,i);v,i=s.value(t,i,ty);return (ty,v),i
    # --- top-level
    def parse(s,text):
        lines=text.split('\n');i=0;n=len(lines)
        while i<n:
            L=lines[i]
            if L.startswith('%') and ' = type ' in L:
                t=toks(L);nm=unq(t[0])
                if t[3]!='opaque': s.types[nm],_=s.parse_ty(t,3)
            elif L.startswith('@'): s.parse_global(L)
            elif L.startswith('declare'):
                f=s.header(L);s.decls[f.name]=f
            elif L.startswith('define'):
                f=s.header(L);i+=1
                cur=None
                while lines[i]!='}':
                    L=lines[i]
                    if L.strip()=='' : i+=1;continue
                    m=re.match(r'^("[^"]+"|[-\w.$]+):',L)
                    if m:
                        nm=m.group(1).strip('"');cur=Block(nm);f.blocks[nm]=cur;f.order.append(nm)
                    else:
                        if cur is None: cur=Block('0');f.blocks['0']=cur;f.order.append('0')
                        if re.match(r'^\s+switch ',L):
                            while ']' not in lines[i]: i+=1;L+=' '+lines[i]
                        elif re.search(r'= landingpad|invoke ',L):
                            while i+1<n and re.match(r'^\s{6,}(catch|cleanup|filter|to label)',lines[i+1]): i+=1;L+=' '+lines[i]
                        cur.ins.append(s.instr(L))
                    i+=1
                f.mod=s;s.funcs[f.name]=f
            i+=1
        return s
    def parse_global(s,L):
        m=re.match(r'^@("[^"]*"|[-\w.$]+) = (.*)$',L)
        nm=m.group(1).strip('"');rest=m.group(2)
        if ' alias ' in (' '+rest):
            mm=re.search(r'@("[^"]*"|[-\w.$]+)\s*$',rest);s.globals[nm]=('alias',mm.group(1).strip('"'));return
        mm=re.search(r'\b(constant|global)\b',rest)
        if not mm: return
        kind=mm.group(1);r=rest[mm.end():]
        ext='external' in rest[:mm.start()]
        r=re.split(r', (?:comdat|align|section|!)',r)[0] if not ext else re.split(r', (?:comdat|align)',r)[0]
        try:
            t=toks(r);ty,i=s.parse_ty(t,0)
            init=None
            if not ext and i<len(t): init,_=s.value(t,i,ty)
            s.globals[nm]=(kind,ty,init)
        except SyntaxError as e:
            s.globals[nm]=(kind,None,None)
    def header(s,L):
        t=toks(L[L.index(' '):]);i=0
        SK={'dso_local','linkonce_odr','weak_odr','internal','private','local_unnamed_addr','unnamed_addr','external','hidden','weak','available_externally'}
        while t[i] in SK: i+=1
        at,i=s.attrs(t,i)
        ret,i=s.parse_ty(t,i)
        f=Func(unq(t[i]));i+=1
        f.ret=ret;f.retattr=at
        assert t[i]=='(';i+=1
        k=0
        while t[i]!=')':
            if t[i]=='...': f.vararg=True;i+=1;continue
            ty,i=s.parse_ty(t,i);at,i=s.attrs(t,i)
            nm=None
            if t[i][0]=='%': nm=unq(t[i]);i+=1
            else: nm=str(k)
            if nm.isdigit() : k+=1
            f.params.append((ty,at,nm))
            if 'sret' in at: f.sret=nm
            if t[i]==',':i+=1
        f.attrs=' '.join(t[i:])
        return f
    def instr(s,L):
        L0=L;L=L.strip()
        L=re.sub(r', !\w+(\.\w+)* !\d+','',L)
        t=toks(L);i=0;res=None
        if len(t)>2 and t[1]=='=' : res=unq(t[0]);i=2
        op=t[i];i+=1
        if op in('tail','musttail','notail'): op=t[i];i+=1
        mk=lambda ty,a: Ins(op,res,ty,a,L0)
        if op=='alloca':
            ty,i=s.parse_ty(t,i);cnt=None
            if i<len(t) and t[i]==',' and t[i+1]!='align':
                cnt,i=s.tv(t,i+1)
            return mk(ty,cnt)
        if op=='load':
            if t[i]=='volatile' or t[i]=='atomic':i+=1
            ty,i=s.parse_ty(t,i);v,i=s.tv(t,i+1);return mk(ty,v)
        if op=='store':
            if t[i]=='volatile' or t[i]=='atomic':i+=1
            v,i=s.tv(t,i);p,i=s.tv(t,i+1);return mk(None,(v,p))
        if op=='getelementptr':
            while t[i] in('inbounds','nuw','nusw'): i+=1
            ty,i=s.parse_ty(t,i);i+=1;ops=[]
            while True:
                v,i=s.tv(t,i);ops.append(v)
                if i<len(t) and t[i]==',':i+=1
                else:break
            return mk(ty,ops)
        if op in('call','invoke'):
            while t[i] in('fastcc','ccc') : i+=1
            at,i=s.attrs(t,i);ty,i=s.parse_ty(t,i)
            if t[i]=='(':  # explicit fn type
                d=0
                while True:
                    if t[i]=='(':d+=1
                    if t[i]==')':
                        d-=1
                        if d==0:break
                    i+=1
                i+=1
            cal,i=s.value(t,i,PTR);assert t[i]=='(',L;i+=1;args=[]
            while t[i]!=')':
                aty,i=s.parse_ty(t,i);aat,i=s.attrs(t,i)
                if aty.k=='metadata': v=('undef',);i+=1
                else: v,i=s.value(t,i,aty)
                args.append((aty,v,aat))
                if t[i]==',':i+=1
            i+=1
            a=dict(callee=cal,args=args)
            if op=='invoke':
                j=t.index('to',i);a['normal']=unq(t[j+2]);j=t.index('unwind',j);a['unwind']=unq(t[j+2])
            return mk(ty,a)
        if op=='br':
            if t[i]=='label': return mk(None,(unq(t[i+1]),))
            v,i=s.tv(t,i);l1=unq(t[i+2]);l2=unq(t[i+5]);return mk(None,(v,l1,l2))
        if op=='switch':
            v,i=s.tv(t,i);d=unq(t[i+2]);i+=4;cs=[]
            while t[i]!=']':
                c,i=s.tv(t,i);cs.append((c[1][1],unq(t[i+2])));i+=3
            return mk(None,(v,d,cs))
        if op=='ret':
            if t[i]=='void': return mk(VOID,None)
            v,i=s.tv(t,i);return mk(v[0],v)
        if op in('icmp','fcmp'):
            pr=t[i];i+=1;ty,i=s.parse_ty(t,i);a,i=s.value(t,i,ty);b,i=s.value(t,i+1,ty);return mk(ty,(pr,a,b))
        if op in('add','sub','mul','udiv','sdiv','urem','srem','shl','lshr','ashr','and','or','xor','fmul','fdiv','fadd','fsub'):
            fl=set()
            while t[i] in('nuw','nsw','exact','disjoint','fast','contract','reassoc'): fl.add(t[i]);i+=1
            ty,i=s.parse_ty(t,i);a,i=s.value(t,i,ty);b,i=s.value(t,i+1,ty);return mk(ty,(a,b,fl))
        if op=='fneg':
            ty,i=s.parse_ty(t,i);a,i=s.value(t,i,ty);return mk(ty,(a,))
        if op in('trunc','zext','sext','ptrtoint','inttoptr','bitcast','uitofp','sitofp','fptoui','fptosi','fpext','fptrunc','addrspacecast'):
            while t[i] in('nneg','nuw','nsw'): i+=1
            v,i=s.tv(t,i);assert t[i]=='to';ty,i=s.parse_ty(t,i+1);return mk(ty,v)
        if op=='phi':
            ty,i=s.parse_ty(t,i);inc=[]
            while i<len(t) and t[i]=='[':
                v,i=s.value(t,i+1,ty);lb=unq(t[i+1]);i+=3;inc.append((v,lb))
                if i<len(t) and t[i]==',':i+=1
            return mk(ty,inc)
        if op=='select':
            c,i=s.tv(t,i);a,i=s.tv(t,i+1);b,i=s.tv(t,i+1);return mk(a[0],(c,a,b))
        if op=='extractvalue':
            v,i=s.tv(t,i);ix=[]
            while i<len(t) and t[i]==',': ix.append(int(t[i+1]));i+=2
            return mk(v[0],(v,ix))
        if op=='insertvalue':
            v,i=s.tv(t,i);e,i=s.tv(t,i+1);ix=[]
            while i<len(t) and t[i]==',': ix.append(int(t[i+1]));i+=2
            return mk(v[0],(v,e,ix))
        if op=='unreachable': return mk(None,None)
        if op=='landingpad':
            ty,i=s.parse_ty(t,i);cl=[];clean=False
            while i<len(t):
                if t[i]=='cleanup': clean=True;i+=1
                elif t[i]=='catch':
                    v,i=s.tv(t,i+1);cl.append(v[1])
                else: i+=1
            return mk(ty,(cl,clean))
        if op=='resume':
            v,i=s.tv(t,i);return mk(None,v)
        if op=='va_arg' or op=='freeze': raise SyntaxError('unsupported '+op)
        raise SyntaxError('instr '+L)

def unq(x):
    x=x[1:]
    return x[1:-1] if x.startswith('"') else x
def unesc(x):
    out=bytearray();i=0
    b=x.encode()
    while i<len(b):
        if b[i]==0x5c and b[i+1:i+2]==b'\\':
            out.append(0x5c);i+=2
        elif b[i]==0x5c:
            out.append(int(b[i+1:i+3],16));i+=3
        else: out.append(b[i]);i+=1
    return bytes(out)

def demangle(names):
    names=list(names)
    filt=lambda cmd,ns: subprocess.run(cmd,input='\n'.join(ns),capture_output=True,text=True).stdout.split('\n')
    d=dict(zip(names,filt(['c++filt'],names)))
    # names binutils does not know yet (template parameter declarations spelled out)
    hard=[n for n in names if d[n]==n and n.startswith('_Z')]
    if hard:
        d.update(zip(hard,filt(['c++filt'],[re.sub(r'T[pn]+TnmJ|TpTnmJ',lambda m:'J',n) for n in hard])))
    hard=[n for n in names if d[n]==n and n.startswith('_Z')]
    if hard:
        try: d.update(zip(hard,[re.sub(r'>(?=>)','> ',x) for x in filt(['llvm-cxxfilt'],hard)]))
        except OSError: pass
    return d

if __name__=='__main__':
    import sys
    p=Parser()
    for f in sys.argv[1:]:
        q=Parser().parse(open(f).read());p.funcs.update(q.funcs);p.decls.update(q.decls);p.globals.update(q.globals)
    print(len(p.funcs),len(p.decls),len(p.globals),len(p.types))
    print(sum(len(f.loops()) for f in p.funcs.values()), [f.name for f in p.funcs.values() if f.irreducible])
