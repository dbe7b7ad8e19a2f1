"""Contracts: the default lexer (C01, C02, C03). What the lexer makes of a text is given by recursive definitions of
"what the rest of the text still adds": a loop is right if every iteration leaves the same work to do as before it."""
from contracts import *
import loops,specs_text,specs_vec,specs_value,specs_fmt,specs_conv
from specs_text import *
from specs_conv import as_piece
DL='coil::DefaultLexer';TOKEN='coil::DefaultLexer::Token';SVN='coil::StringView'
# ---------------------------------------------------------------- characters
MEM=z3.Function('OCCURS',Txt,IntS,BoolS)          # the byte occurs in the text
def occurs(c,t,x):
    """byte x occurs in the text t"""
    r=MEM(t.txt,zi(x))
    if c.mode=='spec':
        w=fresh_int('at');j=z3.Int('oj');A=CH(zi(t.b))
        c.fact(Implies(r,And(le(0,w),lt(w,t.l),eq(z3.Select(A,w),zi(x)))),
               z3.Implies(z3.Not(r),z3.ForAll([j],z3.Implies(z3.And(j>=0,j<zi(t.l)),z3.Select(A,j)!=zi(x)),patterns=[z3.Select(A,j)])))
    return r
def sets(c):
    """the four character sets of the lexer, by name"""
    v=c.rd(c.this);d={f[1]:x for f,x in zip(v.ty.fields,v.vs)}
    return d['m_groupParentheses'],d['m_quotes'],d['m_groupSeparators'],d['m_spaceCharacters']
@contract(r'coil::DefaultLexer::(isGroupChar|isQuote|isGroupSeparator|isSpace)\(unsigned char\) const')
def is_set(c):
    g,q,se,sp=sets(c);x=c.p(0)
    n=c.last
    if n=='isGroupSeparator': r=Or(occurs(c,sp,x),occurs(c,se,x))
    else: r=occurs(c,{'isGroupChar':g,'isQuote':q,'isSpace':sp}[n],x)
    c.ret(c.T('bool'),r)
GROUP,QUOTE,SPACE,PLAIN,ASSIGN=range(5)
LexS=z3.DeclareSort('LexS')
LX=z3.Function('LEXER',Txt,Txt,Txt,Txt,LexS)
def lex_of(c):
    g,q,se,sp=sets(c)
    return LX(g.txt,q.txt,se.txt,sp.txt)
def _sets(lx): return [lx.arg(i) for i in range(4)] if z3.is_app(lx) and lx.decl().eq(LX) else None
def kind_of(lx,x):
    """the type of the byte: '=' before space before group before quote"""
    g,q,se,sp=_sets(lx)
    return z3.If(x==61,ASSIGN,z3.If(MEM(sp,x),SPACE,z3.If(MEM(g,x),GROUP,z3.If(MEM(q,x),QUOTE,PLAIN))))
def issep(lx,x):
    g,q,se,sp=_sets(lx);return z3.Or(MEM(sp,x),MEM(se,x))
def isquote(lx,x): return MEM(_sets(lx)[1],x)
@contract(r'coil::DefaultLexer::getCharType\(unsigned char\) const')
def char_type(c):
    c.ret(c.T('int'),kind_of(lex_of(c),zi(c.p(0))))
# ---------------------------------------------------------------- groups
I=IntS
def ch(b,o,p): return z3.Select(CH(b),o+p)
def K_(lx,b,o,p): return kind_of(lx,ch(b,o,p))
def guarded(f):
    def body(lx,*a): return f(lx,*a) if _sets(lx) else None
    return body
TXTARGS=[LexS,I,I,I]
# the first position from p on that is no separator
SEPS=SpecFn('AFTER_SEPARATORS',TXTARGS+[I],I,guarded(lambda lx,b,o,l,p:z3.If(z3.And(p<l,issep(lx,ch(b,o,p))),SEPS(lx,b,o,l,p+1),p)))
# the end of the item at p; q: inside quotes
ITEM=SpecFn('AFTER_ITEM',TXTARGS+[I,BoolS],I,guarded(lambda lx,b,o,l,p,q:z3.If(z3.And(p<l,z3.Or(q,z3.Not(issep(lx,ch(b,o,p))))),ITEM(lx,b,o,l,p+1,z3.Xor(q,isquote(lx,ch(b,o,p)))),p)))
_dt={}
def results(ex,name,*elnames):
    """results of a scan: the vectors of elements found (arrays and lengths), or the error"""
    if name not in _dt:
        els=[ex.types.get(n) for n in elnames];fs=[]
        for i,el in enumerate(els): fs+=[('arr%d'%i,z3.ArraySort(IntS,ex.sorts.sort(el))),('n%d'%i,IntS)]
        D=z3.Datatype(name);D.declare('done_'+name,*[(n+'_'+name,s) for n,s in fs]);D.declare('fail_'+name,('code_'+name,IntS),('pos_'+name,IntS))
        D=D.create();_dt[name]=(D,els,fs)
    return _dt[name]
class Res:
    def __init__(s,ex,name,*els):
        D,s.els,fs=results(ex,name,*els);s.D=D
        s.done=D.constructor(0);s.fail=D.constructor(1);s.isdone=D.recognizer(0)
        s.f=[D.accessor(0,i) for i in range(len(fs))];s.code=D.accessor(1,0);s.pos=D.accessor(1,1)
def view_el(ex,el,b,o,l): return ex.sorts.tz(el,SVV(b,o,l))
def SPLIT(ex):
    R=Res(ex,'Split',SVN)
    if 'SPLIT' not in _dt:
        el=R.els[0]
        def body(lx,b,o,l,p,A,n):
            if not _sets(lx): return None
            s=SEPS(lx,b,o,l,p);e=ITEM(lx,b,o,l,s,z3.BoolVal(False))
            st=z3.And(e-s>=2,isquote(lx,ch(b,o,s)),isquote(lx,ch(b,o,e-1)))
            x=z3.If(st,view_el(ex,el,b,o+s+1,e-s-2),view_el(ex,el,b,o+s,e-s))
            return z3.If(s>=l,R.done(A,n),F(lx,b,o,l,e+1,z3.Store(A,n,x),n+1))
        F=SpecFn('SPLIT',TXTARGS+[I,z3.ArraySort(IntS,ex.sorts.sort(el)),I],R.D,body);_dt['SPLIT']=F
    return _dt['SPLIT'],R
def split(c,v,lx):
    F,R=SPLIT(c.ex);el=R.els[0]
    r=F(lx,zi(v.b),zi(v.o),zi(v.l),z3.IntVal(0),empty_arr(c.ex,el),z3.IntVal(0))
    c.fact(R.isdone(r));return R.f[0](r),R.f[1](r)
def new_vec(c,el,arr,n):
    k=fresh_int('cap');c.fact(le(0,n),le(n,k),lt(mul(el.size,k),MAXLEN));return VecV(el,n,k,arr)
def inside(ex,el,A,n,b,o,l):
    """the elements are parts of the text (b,o,l)"""
    j=z3.Int('pj');z=z3.Select(A,j);x=ex.sorts.fz(el,z);ok=[]
    if el.kind!='sv': ty,x=token_parts(None,x);ok=[0<=ty,ty<=2]
    body=z3.Implies(z3.And(0<=j,j<zi(n)),z3.And(zi(x.b)==zi(b),zi(o)<=zi(x.o),0<=zi(x.l),zi(x.o)+zi(x.l)<=zi(o)+zi(l),*ok))
    return z3.ForAll([j],body,patterns=[z]) if not loops.has_ite(A) else z3.ForAll([j],body)
def found(c,T_,el,v,A,n,wrap=lambda x:x):
    """what is found in a text are parts of it"""
    if c.mode=='spec':
        p=c.sret
        def f(st):
            x=wrap(c.h.read_obj(st,p,T_))
            return True if x is None else inside(c.ex,el,x.arr,x.l,v.b,v.o,v.l)
        c.post.append(('every piece is a part of the text',f))
    else: c.fact(inside(c.ex,el,A,n,v.b,v.o,v.l))
def vec_leaves(g,arrs,el):
    """vectors of such elements the loop changes: (array, length)"""
    for A in arrs:
        if A.T is not el and (A.T is None or A.T.name!=el.name): continue
        for L in g.leaves.values():
            if L.b is A.b and L.off==A.off and L.sub[:-1]==A.sub[:-1] and L.sub[-1:]==('l',): yield A,L
def flags(ex,g,ints):
    """two-valued locations: (leaf, test)"""
    for L in g.leaves.values():
        if L.kind=='bool' and isinstance(L.entry,bool): yield L,(lambda st,L=L:zb(L.get(ex,st)))
    for L in ints:
        if isinstance(L.entry,int) and g.entry.mem[L.b].cells[L.off][0]<8: yield L,(lambda st,L=L:zi(L.get(ex,st))!=0)
def split_hints(ex,g,entry,h,ints,arrs):
    k=getattr(ex,'lexing',None);out=[]
    if not k: return out
    lx,(b,o,l)=k;F,R=SPLIT(ex);el=R.els[0];T_=(lx,b,o,l);E=empty_arr(ex,el)
    for X in ints:
        gx=lambda st,X=X:zi(X.get(ex,st))
        for A,n in vec_leaves(g,arrs,el):
            if X is n: out.append(('the pieces are parts of the text',lambda st,A=A,n=n:inside(ex,el,A.get(ex,st),n.get(ex,st),b,o,l)))
            out.append(('the rest of the group from %s'%X.name,lambda st,gx=gx,A=A,n=n:F(*T_,gx(st),A.get(ex,st),zi(n.get(ex,st)))==F(*T_,z3.IntVal(0),E,z3.IntVal(0))))
        e=X.entry
        if not isinstance(e,(int,z3.ArithRef)): continue
        out.append(('only separators before %s'%X.name,lambda st,gx=gx,e=e:SEPS(*T_,gx(st))==SEPS(*T_,zi(e))))
        for q,f in flags(ex,g,ints):
            out.append(('one item before %s (%s)'%(X.name,q.name),lambda st,gx=gx,e=e,f=f,q=q:ITEM(*T_,gx(st),f(st))==ITEM(*T_,zi(e),f(entry))))
    return out
split_hints.own_arrays=True
@contract(r'coil::DefaultLexer::splitGroup\(coil::StringView\) const',hints=split_hints,terminates=True)
def split_group(c):
    lx=lex_of(c);v=c.p(0);A,n=split(c,v,lx)
    if c.mode=='spec': c.ex.lexing=(lx,(zi(v.b),zi(v.o),zi(v.l)))
    T_=c.T('coil::Vector<coil::StringView>');el=c.ex.types.el(T_);c.ret(T_,new_vec(c,el,A,n))
    found(c,T_,el,v,A,n)
# ---------------------------------------------------------------- the value a token stands for
STRTOK,GROUPTOK,ASSIGNTOK=range(3)
def token_parts(c,t):
    """(type, text) of a token"""
    d={f[1]:x for f,x in zip(t.ty.fields,t.vs)};return d['type'],d['value']
def tok_type(ex,el,z): return token_parts(None,ex.sorts.fz(el,z))[0]
VALUE='coil::Value'
def VALF(ex):
    if 'VALF' not in _dt: _dt['VALF']=z3.Function('VALUE_OF_TOKEN',LexS,ex.sorts.sort(ex.types.get(TOKEN)),ex.sorts.sort(ex.types.get(VALUE)))
    return _dt['VALF']
def value_facts(c,lx,tok,v):
    """v holds the pieces of a group token, or the text of another token as its only piece"""
    ty,x=token_parts(c,tok);vec=v.vs[0];A,n=split(c,x,lx);j=z3.Int('vj')
    g=eq(ty,GROUPTOK)
    el=c.ex.types.get(SVN)
    return [('the number of pieces',If(g,zi(vec.l)==n,zi(vec.l)==1)),
            ('the pieces of a group',z3.Implies(zb(g),z3.ForAll([j],z3.Implies(z3.And(0<=j,j<n),z3.Select(vec.arr,j)==z3.Select(A,j)),patterns=[z3.Select(vec.arr,j)]))),
            ('the text of the token',z3.Implies(z3.Not(zb(g)),z3.Select(vec.arr,0)==view_el(c.ex,el,x.b,x.o,x.l)))]
@contract(r'coil::DefaultLexer::createValue\(coil::DefaultLexer::Token const&\) const')
def create_value(c):
    lx=lex_of(c);T_=c.T(VALUE);t=c.rd(c.p(0),c.T(TOKEN))
    if c.mode=='spec':
        c.ret(T_,UnspecV(T_));p=c.sret
        def f(st,k):
            v=c.h.read_obj(st,p,T_);y=specs_fmt.Ctx(c.ex,st);return value_facts(y,lx,t,v)[k][1]
        for k,d in enumerate(('the number of pieces','the pieces of a group','the text of the token')): c.post.append((d,lambda st,k=k:f(st,k)))
        return
    v=c.ex.sorts.fz(T_,VALF(c.ex)(lx,c.ex.sorts.tz(t.ty,t)))
    c.fact(*c.ex.sorts.inv(T_,v));c.fact(*[x[1] for x in value_facts(c,lx,t,v)])
    c.ret(T_,v)
# ---------------------------------------------------------------- tokens
BLANKS=SpecFn('AFTER_BLANKS',TXTARGS+[I],I,guarded(lambda lx,b,o,l,p:z3.If(z3.And(p<l,K_(lx,b,o,p)==SPACE),BLANKS(lx,b,o,l,p+1),p)))
RUN=SpecFn('AFTER_PLAIN',TXTARGS+[I],I,guarded(lambda lx,b,o,l,p:z3.If(z3.And(p<l,K_(lx,b,o,p)==PLAIN),RUN(lx,b,o,l,p+1),p)))
SEPIN=SpecFn('SEPARATOR_IN_PLAIN',TXTARGS+[I],BoolS,guarded(lambda lx,b,o,l,p:z3.And(p<l,K_(lx,b,o,p)==PLAIN,z3.Or(issep(lx,ch(b,o,p)),SEPIN(lx,b,o,l,p+1)))))
CLOSE=SpecFn('CLOSING',TXTARGS+[I,I],I,guarded(lambda lx,b,o,l,t,p:z3.If(z3.And(p<l,K_(lx,b,o,p)!=t),CLOSE(lx,b,o,l,t,p+1),p)))
NOQUOTE,NOGROUP=0,1
def tok_el(ex,el,ty,b,o,l):
    d={'type':ty,'value':SVV(b,o,l)};return ex.sorts.tz(el,RecV(el,[d[f[1]] for f in el.fields]))
def TOKENIZE(ex):
    R=Res(ex,'Tokens',TOKEN);el=R.els[0]
    if 'TOKENIZE' not in _dt:
        def body(lx,b,o,l,p,A,n):
            if not _sets(lx): return None
            a=(lx,b,o,l);s=BLANKS(*a,p);k=K_(lx,b,o,s);r=RUN(*a,s+1);g=CLOSE(*a,z3.IntVal(GROUP),s+1);q=CLOSE(*a,z3.IntVal(QUOTE),s+1)
            def more(p2,ty,b,o2,l2): return F(*a,p2,z3.Store(A,n,tok_el(ex,el,ty,b,o2,l2)),n+1)
            return z3.If(s>=l,R.done(A,n),
                z3.If(k==PLAIN,more(r,z3.If(SEPIN(*a,s+1),GROUPTOK,STRTOK),b,o+s,r-s),
                z3.If(k==ASSIGN,more(s+1,ASSIGNTOK,b,o+s,1),
                z3.If(k==QUOTE,z3.If(q>=l,R.fail(NOQUOTE,s),more(q+1,STRTOK,b,o+s+1,q-s-1)),
                    z3.If(g>=l,R.fail(NOGROUP,s),more(g+1,GROUPTOK,b,o+s+1,g-s-1))))))
        F=SpecFn('TOKENIZE',TXTARGS+[I,z3.ArraySort(IntS,ex.sorts.sort(el)),I],R.D,body);_dt['TOKENIZE']=F
    return _dt['TOKENIZE'],R
def tok_hints(ex,g,entry,h,ints,arrs):
    k=getattr(ex,'lexing',None);out=[]
    if not k: return out
    lx,(b,o,l)=k;F,R=TOKENIZE(ex);el=R.els[0];T_=(lx,b,o,l);E=empty_arr(ex,el)
    for X in ints:
        gx=lambda st,X=X:zi(X.get(ex,st));e=X.entry
        for A,n in vec_leaves(g,arrs,el):
            if X is n: out.append(('the pieces are parts of the text',lambda st,A=A,n=n:inside(ex,el,A.get(ex,st),n.get(ex,st),b,o,l)))
            out.append(('the rest of the text from %s'%X.name,lambda st,gx=gx,A=A,n=n:F(*T_,gx(st),A.get(ex,st),zi(n.get(ex,st)))==F(*T_,z3.IntVal(0),E,z3.IntVal(0))))
        if not isinstance(e,(int,z3.ArithRef)): continue
        out.append(('only blanks before %s'%X.name,lambda st,gx=gx,e=e:BLANKS(*T_,gx(st))==BLANKS(*T_,zi(e))))
        out.append(('only plain characters before %s'%X.name,lambda st,gx=gx,e=e:RUN(*T_,gx(st))==RUN(*T_,zi(e))))
        for t in(GROUP,QUOTE): out.append(('%s not before %s'%(('group','quote')[t],X.name),lambda st,gx=gx,e=e,t=t:CLOSE(*T_,z3.IntVal(t),gx(st))==CLOSE(*T_,z3.IntVal(t),zi(e))))
        for q,f in flags(ex,g,ints):
            if q is X: continue
            out.append(('separators seen before %s (%s)'%(X.name,q.name),lambda st,gx=gx,e=e,f=f:z3.Or(f(st),SEPIN(*T_,gx(st)))==z3.Or(f(entry),SEPIN(*T_,zi(e)))))
    return out
tok_hints.own_arrays=True
TOKRES='coil::Expected<coil::Vector<coil::DefaultLexer::Token>, coil::String>'
def no_closing(c,code,x):
    return message(c,[b"Token '",char_txt(c,x),b"' doesn't have a corresponding opening/closing quote" if code==NOQUOTE else b"' doesn't have a corresponding opening/closing token"])
def tokens_of(c,lx,v):
    """('ok', vector) or ('error', text)"""
    F,R=TOKENIZE(c.ex);el=R.els[0];b,o,l=zi(v.b),zi(v.o),zi(v.l)
    r=F(lx,b,o,l,z3.IntVal(0),empty_arr(c.ex,el),z3.IntVal(0))
    if c.case(R.isdone(r)): return True,(R.f[0](r),R.f[1](r))
    p=R.pos(r);c.fact(0<=p,p<l,z3.Or(R.code(r)==NOQUOTE,R.code(r)==NOGROUP))
    c.ex.assumed.add(specs_fmt.LIMIT)
    return False,no_closing(c,NOQUOTE if c.case(R.code(r)==NOQUOTE) else NOGROUP,ch(b,o,p))
@contract(r'coil::DefaultLexer::tokenize\(coil::StringView\) const',hints=tok_hints,terminates=True)
def tokenize(c):
    lx=lex_of(c);v=c.p(0);T_=c.T(TOKRES)
    if c.mode=='spec': c.ex.lexing=(lx,(zi(v.b),zi(v.o),zi(v.l)))
    ok,x=tokens_of(c,lx,v)
    if not ok: c.ret(T_,ExpV(T_,False,None,x));return
    A,n=x;el=c.ex.types.get(TOKEN);c.ret(T_,ExpV(T_,True,new_vec(c,el,A,n)));found(c,T_,el,v,A,n,lambda x:x.val if x.ok is not False else None)
# ---------------------------------------------------------------- tokens to a command
NAMED='coil::NamedValue';INPUTT='coil::ExecutionInput'
NONAME,NOVALUE,ENDS=1,2,3
PTXT={NONAME:b"Unexpected token '=': no name for the named argument is provided",NOVALUE:b"Expected an argument value, found '='",ENDS:b'Expected an argument value, found end of string'}
def TYPE_OF(ex,t): return zi(tok_type(ex,ex.types.get(TOKEN),t))
def PARSE(ex):
    R=Res(ex,'Parsed',VALUE,NAMED)
    if 'PARSE' not in _dt:
        tok=ex.types.get(TOKEN);nv=R.els[1]
        S_=lambda el:z3.ArraySort(IntS,ex.sorts.sort(el));V=VALF(ex);val=ex.types.get(VALUE)
        def body(lx,T_,m,q,A,na,B,nb):
            if not _sets(lx): return None
            t,t1,t2=(z3.Select(T_,q+i) for i in range(3))
            key=token_parts(None,ex.sorts.fz(tok,t))[1];d={'key':key,'value':ex.sorts.fz(val,V(lx,t2))}
            named=ex.sorts.tz(nv,RecV(nv,[d[f[1]] for f in nv.fields]))
            return z3.If(q>=m,R.done(A,na,B,nb),
                z3.If(TYPE_OF(ex,t)==ASSIGNTOK,R.fail(NONAME,q),
                z3.If(z3.And(q+1<m,TYPE_OF(ex,t1)==ASSIGNTOK),
                    z3.If(q+2>=m,R.fail(ENDS,q),z3.If(TYPE_OF(ex,t2)==ASSIGNTOK,R.fail(NOVALUE,q),F(lx,T_,m,q+3,A,na,z3.Store(B,nb,named),nb+1))),
                    F(lx,T_,m,q+1,z3.Store(A,na,V(lx,t)),na+1,B,nb))))
        F=SpecFn('PARSE',[LexS,S_(tok),I,I,S_(R.els[0]),I,S_(nv),I],R.D,body);_dt['PARSE']=F
    return _dt['PARSE'],R
INRES='coil::Expected<coil::ExecutionInput, coil::String>'
def parse_tokens(c,lx,T_,m):
    """('ok', input) or ('error', text) for the first m elements of the token array T_"""
    tok=c.ex.types.get(TOKEN);R_=c.T(INPUTT)
    if c.case(m==0): return True,default_of(c,R_)
    first=c.ex.sorts.fz(tok,z3.Select(T_,0));c.fact(*c.ex.sorts.inv(tok,first));ty,name=token_parts(c,first)
    if not c.case(eq(ty,STRTOK)):
        c.ex.assumed.add(specs_fmt.LIMIT);c.fact(lt(name.l,1<<31))
        return False,message(c,[b"Unexpected token '",as_piece(c,name),b"' at the beginning of the expression"])
    F,R=PARSE(c.ex);A0,B0=(empty_arr(c.ex,e) for e in R.els)
    r=F(lx,T_,zi(m),z3.IntVal(1),A0,z3.IntVal(0),B0,z3.IntVal(0))
    if c.case(R.isdone(r)):
        A,na,B,nb=(f(r) for f in R.f)
        d={'name':name,'arguments':new_vec(c,R.els[0],A,na),'namedArguments':new_vec(c,R.els[1],B,nb)}
        return True,RecV(R_,[d[f[1]] for f in R_.fields])
    c.fact(z3.Or(*[R.code(r)==k for k in PTXT]))
    for k in (NONAME,NOVALUE):
        if c.case(R.code(r)==k): return False,message(c,[PTXT[k]])
    return False,message(c,[PTXT[ENDS]])
def parse_hints(ex,g,entry,h,ints,arrs):
    k=getattr(ex,'parsing',None);out=[]
    if not k: return out
    lx,T_,m=k;F,R=PARSE(ex);A0,B0=(empty_arr(ex,e) for e in R.els);Z=z3.IntVal
    opts=[L for L in g.leaves.values() if L.kind=='obj' and L.T is not None and L.T.kind=='opt' and L.T.Tt.kind=='int']
    va=list(vec_leaves(g,arrs,R.els[0]));vb=list(vec_leaves(g,arrs,R.els[1]))
    small=list(flags(ex,g,ints))
    ty=lambda i:TYPE_OF(ex,z3.Select(T_,i))
    whole=F(lx,T_,m,Z(1),A0,Z(0),B0,Z(0))
    for X in ints:
        gx=lambda st,X=X:zi(X.get(ex,st))
        for A,na in va:
            for B,nb in vb:
                now=lambda st,i,A=A,na=na,B=B,nb=nb:F(lx,T_,m,i,A.get(ex,st),zi(na.get(ex,st)),B.get(ex,st),zi(nb.get(ex,st)))==whole
                out.append(('the rest of the tokens from %s'%X.name,lambda st,now=now,gx=gx:now(st,gx(st))))
                for P in opts:
                    out.append(('the rest of the tokens from %s or %s'%(P.name,X.name),lambda st,now=now,gx=gx,P=P:(lambda p:now(st,z3.If(zb(p.has),zi(p.val),gx(st)) if p.has is not False else gx(st)))(P.get(ex,st))))
        for P in opts:
            for q,f in small:
                if q is X: continue
                def shape(st,P=P,f=f,gx=gx):
                    p=P.get(ex,st)
                    if p.has is False: return z3.Not(f(st))
                    x=gx(st);v=zi(p.val);s=f(st)
                    return z3.And(z3.Implies(z3.Not(zb(p.has)),z3.Not(s)),z3.Implies(zb(p.has),z3.And(1<=v,v<x,ty(v)!=ASSIGNTOK,z3.If(s,z3.And(x==v+2,ty(v+1)==ASSIGNTOK),x==v+1))))
                out.append(('%s is pending before %s (%s)'%(P.name,X.name,q.name),shape))
        out.append(('%s is not before the arguments'%X.name,lambda st,gx=gx:1<=gx(st)))
    for X in ints:
        def known(st,X=X):
            x=zi(X.get(ex,st));return z3.Implies(z3.And(0<=x,x<m),z3.And(0<=ty(x),ty(x)<=2))
        known.full=True;out.append(('the token at %s has one of the three types'%X.name,known))
    for P in opts: out.append(('%s is empty'%P.name,lambda st,P=P:Not(P.get(ex,st).has)))
    return out
parse_hints.own_arrays=True
@contract(r'coil::DefaultLexer::parse\(coil::Vector<coil::DefaultLexer::Token>\) const',hints=parse_hints,terminates=True)
def parse_vec(c):
    lx=lex_of(c);v=pval(c,0);T_=c.T(INRES);j=z3.Int('tj');t=z3.Select(v.arr,j);ty=TYPE_OF(c.ex,t)
    c.req(z3.ForAll([j],z3.Implies(z3.And(0<=j,j<zi(v.l)),z3.And(0<=ty,ty<=2)),patterns=[t]),'every token has one of the three types')
    if c.mode=='spec': c.ex.parsing=(lx,v.arr,zi(v.l))
    ok,x=parse_tokens(c,lx,v.arr,v.l)
    c.ret(T_,ExpV(T_,True,x) if ok else ExpV(T_,False,None,x))
@contract(r'coil::DefaultLexer::parse\(coil::StringView\) const')
def parse_text(c):
    lx=lex_of(c);v=c.p(0);T_=c.T(INRES)
    ok,x=tokens_of(c,lx,v)
    if ok:
        A,n=x;found(c,None,c.ex.types.get(TOKEN),v,A,n) if c.mode=='call' else c.fact(inside(c.ex,c.ex.types.get(TOKEN),A,n,v.b,v.o,v.l),0<=n)
        ok,x=parse_tokens(c,lx,A,n)
    c.ret(T_,ExpV(T_,True,x) if ok else ExpV(T_,False,None,x))
@contract(r'coil::DefaultLexer::DefaultLexer\(coil::StringView, coil::StringView, coil::StringView, coil::StringView\)')
def lexer_ctor(c):
    T_=c.clsT;n=['m_groupParentheses','m_quotes','m_groupSeparators','m_spaceCharacters']
    d={k:copy_of(c,c.p(i)) for i,k in enumerate(n)}
    c.init(c.this,T_,RecV(T_,[d.get(f[1]) or UnspecV(f[2]) for f in T_.fields]))
    import specs_bind
    if c.mode=='spec': c.post.append(('it is a default lexer',lambda st:specs_bind.vtable_goal(c,st,c.this,DL)))
SETS={'m_groupParentheses':b'()','m_quotes':b"'\"",'m_groupSeparators':b',;|','m_spaceCharacters':b' \t\n\r'}
def default_lexer(c,st,p):
    """p owns a lexer made with the default character sets"""
    import specs_bind
    if not isinstance(p,Ptr) or not isinstance(p.base,Block) or p.base.kind!='heap': return False
    T_=c.T(DL);x=st.mem[p.base].cells.get(0)
    if not(x is not None and x[1] is not None and x[1].name==DL) and not specs_bind.vtable_goal(c,st,p,DL): return False
    g=[]
    for o,n,ft in T_.fields:
        if n not in SETS: continue
        v=c.h.read_obj(st,c.h.canon(st,p.plus(o)),ft);x=SETS[n]
        g+=[v.ok,eq(v.l,len(x))]+[z3.Select(CH(zi(v.b)),i)==y for i,y in enumerate(x)]
    c.st.ghost.setdefault('kept',set()).add(p.base)
    return And(*g)
def setup_dtor(su):
    if su.f.name.endswith('D0Ev'): b=su.args[0].base;b.kind='heap';b.how=''
@contract(r'coil::DefaultLexer::~DefaultLexer\(\)',setup=setup_dtor)
def lexer_dtor(c):
    c.kill(c.this,c.clsT)
    if c.name.endswith('D0Ev'):
        b=c.this.base;del c.st.mem[b];c.post.append(('the lexer is released',lambda st:b not in st.mem or not st.mem[b].live))
