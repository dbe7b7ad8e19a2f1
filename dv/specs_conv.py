"""Contracts: text form of values, type names, conversion errors, serializers (C06, C07, C18, C20)."""
from contracts import *
import specs_text,specs_vec,specs_value,specs_fmt
from specs_text import *
from specs_fmt import cut,dec,number_text,parsed,NUM,W,errno_havoc,LIMIT
NOEXT=re.escape
# ---------------------------------------------------------------- the text of a value: its pieces joined by single spaces
def el_txt(c,el,t): return c.ex.sorts.fz(el,t).txt
JOIN_=[None]
def JOIN(ex):
    if JOIN_[0] is None:
        el=ex.types.get('coil::StringView');srt=ex.sorts.sort(el);sp=z3.Const('lit:20',Txt);em=z3.Const('lit:',Txt)
        def body(A,n):
            j=JOIN_[0](A,n);v=ex.sorts.fz(el,z3.Select(A,n-1));p=JOIN_[0](A,n-1)
            return [z3.Implies(n<=0,j==em),z3.Implies(n==1,j==v.txt),z3.Implies(n>1,j==CAT(CAT(p,sp),v.txt)),TLEN(j)>=0]
        JOIN_[0]=SpecFn('JOINED',[z3.ArraySort(IntS,srt),IntS],Txt,body)
    return JOIN_[0]
def value_txt(c,v):
    """the text form of a value (a record of one vector of pieces)"""
    vec=v.vs[0];t=JOIN(c.ex)(vec.arr,zi(vec.l));lit_txt(c,b' ');lit_txt(c,b'')
    n=val_of(vec.l)
    if n==1: t=el_txt(c,vec.elT,sel(vec.arr,0))
    elif n==0: t=lit_txt(c,b'')
    c.fact(TLEN(t)>=0);return t
def known(c,t,assumed=True):
    """a text of the given content"""
    c.fact(TLEN(t)<(1<<31));c.ex.assumed.add(LIMIT)
    r=c.text(TLEN(t),txt=t);r.ghost_text=True;return r
def pieces_alive(c,v): pass
def str_hints(ex,g,entry,h,ints,arrs):
    """the result so far is the text form of the pieces so far; the separator is empty before the first piece only"""
    out=[];strs=[];views=[];vecs=[]
    for b,d in h.mem.items():
        for o,(sz,T_,v) in d.cells.items():
            if isinstance(v,StrV) and b.kind!='param' : strs.append((b,o,T_))
            if isinstance(v,StrV) and b.kind=='param' and b.name=='result': strs.append((b,o,T_))
            if isinstance(v,SVV) and b.kind=='stack': views.append((b,o,T_))
            for x in sub_vecs(v): vecs.append(x)
    idx=[L for L in ints if L.sub and isinstance(L.sub[-1],tuple)]+[L for L in ints if not L.sub]
    J=JOIN(ex)
    for v in vecs:
        if v.elT.kind!='sv': continue
        for X in idx:
            for b,o,T_ in strs:
                out.append(('the text so far is the first %s pieces joined'%X.name,lambda st,b=b,o=o,T_=T_,X=X,v=v:ex.h.read_cells(st,b,o,T_).txt==J(v.arr,zi(X.get(ex,st)))))
                out.append(('%s has contents'%b.name,lambda st,b=b,o=o,T_=T_:ex.h.read_cells(st,b,o,T_).ok))
            for b,o,T_ in views:
                def f(st,b=b,o=o,T_=T_,X=X):
                    s=ex.h.read_cells(st,b,o,T_)
                    ps=pieces(specs_fmt.Ctx(ex,st),s);i=X.get(ex,st)
                    if all(isinstance(x,bytes) for x in ps): return {b'':eq(i,0),b' ':lt(0,i)}.get(b''.join(ps),False)
                    return And(Implies(eq(X.get(ex,st),0),eq(s.l,0)),Implies(lt(0,X.get(ex,st)),And(eq(s.l,1),s.txt==z3.Const('lit:20',Txt))))
                out.append(('%s separates the pieces'%b.name,f))
    return out
def sub_vecs(v):
    if isinstance(v,VecV): return [v]
    if isinstance(v,RecV): return [y for x in v.vs for y in sub_vecs(x)]
    return []
@contract(r'coil::Value::str\(\) const',hints=str_hints)
def value_str(c):
    v=c.rd(c.this)
    c.ret(c.T(STR),known(c,value_txt(c,v)))
# ---------------------------------------------------------------- type names
TYPE_NAMES={**{t:t.encode() for t in W},'unsigned int':b'unsigned int','bool':b'bool','void':b'void','float':b'float','double':b'double','long double':b'long double','coil::String':b'string','coil::StringView':b'string','coil::Value':b'coil::Value'}
@contract(r'coil::TypeName<(.*?)(?:, void)?>::name\(\)')
def type_name(c):
    n=TYPE_NAMES.get(c.m.group(1))
    T_=c.T('coil::StringView')
    if n is None: n_user(c,T_);return
    p=c.ex.literal(c.st,n+b'\0');v=SVV(p.base.bid,0,len(n));v.bytext=True
    c.ret(T_,v)
def n_user(c,T_): raise Unsupported('name of '+c.m.group(1))
# ---------------------------------------------------------------- conversion errors
def error_text(c,name,vtxt,details=None):
    """'Unable to convert '<value>' to type '<name>'[: <details>]'"""
    ps=[b"Unable to convert '",vtxt,b"' to type '",name,b"'"]
    if details is not None: ps+=[b': ']+list(details)
    return message(c,ps)
def cuttxt(c,t):
    r=specs_fmt.CUT(t);c.fact(TLEN(r)<=TLEN(t),TLEN(r)>=0,z3.Implies(z3.Not(specs_fmt.HASNUL(t)),r==t));return r
def as_piece(c,x):
    """what %s prints of a view, literal or text"""
    return x if isinstance(x,bytes) else cuttxt(c,x) if isinstance(x,z3.ExprRef) else cut(c,x)
def unx(c,t):
    U=c.T('coil::Unexpected<coil::String>');return RecV(U,[t])
def value_piece(c,v):
    t=value_txt(c,v);r=PIECES.get(t.get_id())
    return as_piece(c,t)
@contract(r'coil::errors::createGenericError\(coil::StringView, coil::Value const&, coil::StringView\)')
def generic_error(c):
    n=c.p(0);v=c.rd(c.p(1),c.T('coil::Value'));d=c.p(2)
    vt=value_piece(c,v)
    c.ex.assumed.add(LIMIT)
    c.fact(lt(n.l,1<<31),lt(d.l,1<<31))
    if c.case(eq(d.l,0)): r=error_text(c,as_piece(c,n),vt)
    else: r=error_text(c,as_piece(c,n),vt,[as_piece(c,d)])
    c.ret(c.T('coil::Unexpected<coil::String>'),unx(c,r))
def counts(c,exp,got):
    return [b'Expected ',dec(c,exp,64,False),b' subvalues, got ',dec(c,got,64,False)]
def mismatch(c,n,v,exp):
    """the details are a formatted text of digits and letters: they contain no NUL and are not empty"""
    vt=value_piece(c,v)
    ps=counts(c,exp,v.vs[0].l)
    t,_=canon_txt(c,[p for p in ps])
    c.fact(z3.Not(specs_fmt.HASNUL(t)) if not isinstance(t,bytes) else True)
    return error_text(c,n,vt,ps)
@contract(r'coil::errors::createMismatchedSubvaluesError\(coil::StringView, coil::Value const&, unsigned long\)')
def mismatched(c):
    n=c.p(0);v=c.rd(c.p(1),c.T('coil::Value'));c.fact(lt(n.l,1<<31))
    c.ret(c.T('coil::Unexpected<coil::String>'),unx(c,mismatch(c,as_piece(c,n),v,c.p(2))))
@contract(r'coil::Unexpected<coil::String> coil::errors::createGenericError<(.*)>\(coil::Value const&, coil::StringView\)')
def generic_errorT(c):
    n=TYPE_NAMES[c.m.group(1)];v=c.rd(c.p(0),c.T('coil::Value'));d=c.p(1);c.fact(lt(d.l,1<<31))
    vt=value_piece(c,v)
    if c.case(eq(d.l,0)): r=error_text(c,n,vt)
    else: r=error_text(c,n,vt,[as_piece(c,d)])
    c.ret(c.T('coil::Unexpected<coil::String>'),unx(c,r))
@contract(r'coil::Unexpected<coil::String> coil::errors::createMismatchedSubvaluesError<(.*)>\(coil::Value const&, unsigned long\)')
def mismatchedT(c):
    v=c.rd(c.p(0),c.T('coil::Value'))
    c.ret(c.T('coil::Unexpected<coil::String>'),unx(c,mismatch(c,TYPE_NAMES[c.m.group(1)],v,c.p(1))))
# ---------------------------------------------------------------- serializers
USER={}     # conversions of user types
def convert(c,name,v):
    """(kind, payload) of converting the value v to the named type: ('ok',value) or ('err',text)"""
    vec=v.vs[0];T_=c.T(name)
    if name in USER: return USER[name](c,v)
    n=TYPE_NAMES[name]
    if not c.case(eq(vec.l,1)): return 'err',mismatch(c,n,v,1)
    x=c.ex.sorts.fz(vec.elT,sel(vec.arr,0));c.fact(*c.ex.sorts.inv(vec.elT,x))
    if T_.kind in('int','float'):
        ok,r=parsed(c,T_,x)
        if c.case(ok): return 'ok',r
        return 'err',error_text(c,n,value_piece(c,v))
    if T_.kind=='bool':
        yes=Or(is_text(c,x,b'1'),ci_text(c,x,b'true'));no=Or(is_text(c,x,b'0'),ci_text(c,x,b'false'))
        if c.case(yes): return 'ok',True
        if c.case(no): return 'ok',False
        return 'err',error_text(c,n,value_piece(c,v))
    if T_.kind=='str': return 'ok',copy_of(c,x)
    if T_.kind=='sv': return 'ok',x
    raise Unsupported('conversion to '+name)
def chars(v,i): return z3.Select(CH(zi(v.b)),zi(add(v.o,i)))
def is_text(c,v,s): return And(eq(v.l,len(s)),*[eq(chars(v,i),s[i]) for i in range(len(s))])
def lower(x): return z3.If(z3.And(x>=65,x<=90),x+32,x)
def ci_text(c,v,s): return And(eq(v.l,len(s)),*[eq(lower(chars(v,i)),s[i]) for i in range(len(s))])
@contract(r'coil::Expected<(%s), coil::String> arithmeticFromString<\1>\(coil::Value const&\)'%NUM)
def arith_from(c): from_value(c,c.m.group(1))
@contract(r'coil::TypeSerializer<(%s|bool|coil::String|coil::StringView)(?:, void)?>::fromString\(coil::Value const&\)'%NUM)
def ser_from(c): from_value(c,c.m.group(1))
def from_value(c,name): from_value_of(c,name,c.p(0))
def ci_hints(ex,g,entry,h,ints,arrs):
    out=[];vs=[]
    for b,d in entry.mem.items():
        for o,(sz,T_,v) in d.cells.items():
            for x in sub_texts(v): vs.append(x)
            if isinstance(v,Ptr) and isinstance(v.base,TextBase): vs.append(SVV(v.base.bid,v.off,0))
    for i,a in enumerate(vs):
        for b in vs[i+1:]:
            for X in ints:
                def f(st,a=a,b=b,X=X):
                    j=z3.Int('cij');A=CH(zi(a.b))
                    return z3.ForAll([j],z3.Implies(z3.And(j>=zi(a.o),j<zi(a.o)+zi(X.get(ex,st))),lower(z3.Select(A,j))==lower(z3.Select(CH(zi(b.b)),j+zi(sub(b.o,a.o))))),patterns=[z3.Select(A,j)])
                out.append(('the first %s characters agree ignoring case'%X.name,f))
    return out
@contract(r"coil::TypeSerializer<bool(?:, void)?>::fromString\(coil::Value const&\)::(\$_\d+|\{lambda.*\}|'lambda.*')::operator\(\)\(coil::StringView, coil::StringView\) const",hints=ci_hints,calls='contract')
def ci_equal(c):
    a,b=c.p(0),c.p(1);A,B=CH(zi(a.b)),CH(zi(b.b));j=z3.Int('cij');w=fresh_int('w')
    lb=[val_of(simp(x)) if isz(x) else x for x in (b.b,b.o,b.l)]
    if c.mode=='call' and all(isinstance(x,int) for x in lb) and lb[0] in c.ex.litbytes:
        s=c.ex.litbytes[lb[0]][lb[1]:lb[1]+lb[2]]
        c.ret(c.T('bool'),And(eq(a.l,len(s)),*[eq(lower(chars(a,i)),ord(chr(s[i]).lower())) for i in range(len(s))]));return
    r=fresh_bool('ci')
    c.fact(Implies(r,And(eq(a.l,b.l),z3.ForAll([j],z3.Implies(z3.And(j>=zi(a.o),j<zi(add(a.o,a.l))),lower(z3.Select(A,j))==lower(z3.Select(B,j+zi(sub(b.o,a.o))))),patterns=[z3.Select(A,j)]))),
      Implies(And(Not(r),eq(a.l,b.l)),And(le(0,w),lt(w,a.l),ne(lower(chars(a,w)),lower(chars(b,w))))))
    c.ret(c.T('bool'),r)
@contract(r'coil::TypeSerializer<(%s|bool)(?:, void)?>::toString\(\1 const&\)'%NUM)
def ser_to(c):
    T_=c.T(c.m.group(1));x=c.rd(c.p(0),T_)
    if T_.kind=='bool': c.ret(c.T(STR),message(c,[b'true']) if c.case(x) else message(c,[b'false']))
    else: c.ret(c.T(STR),number_text(c,T_,x))
@contract(r'coil::TypeSerializer<(coil::String|coil::StringView)(?:, void)?>::toString\(\1 const&\)')
def ser_to_text(c):
    v=c.rd(c.p(0),c.T(c.m.group(1)))
    if isinstance(v,StrV): c.req(v.ok,'the string has contents (was not moved from)')
    c.ret(c.T(STR),copy_of(c,v,ok=True))
@contract(r'coil::TypeSerializer<char const\*(?:, void)?>::toString\(char const\* const&\)')
def ser_to_cstr(c):
    c.ret(c.T(STR),copy_of(c,cstr_view(c,c.rd(c.p(0),c.T('char*')))))
@contract(r'coil::TypeSerializer<coil::Value(?:, void)?>::toString\(coil::Value const&\)')
def ser_to_value(c): c.ret(c.T(STR),known(c,value_txt(c,c.rd(c.p(0),c.T('coil::Value')))))
@contract(r'coil::TypeSerializer<coil::Value(?:, void)?>::fromString\(coil::Value const&\)')
def ser_from_value(c):
    c.rd(c.p(0),c.T('coil::Value'))
    E=c.T('coil::Expected<coil::ReferenceWrapper<coil::Value const>, coil::String>')
    c.ret(E,ExpV(E,True,RecV(E.Tt,[c.p(0)])))
@contract(r'coil::TypeSerializer<(.*)\*(?:, void)?>::toString\(\1\* const&\)',deepptr=True)
def ser_to_pointer(c):
    n=re.sub(r'\s*\bconst$','',c.m.group(1)).strip();p=c.rd(c.p(0),c.T('void*'))
    if c.case(p.null): c.ret(c.T(STR),message(c,[b'null']));return
    T_=c.T(n);x=c.rd(p,T_)
    if T_.kind=='bool': r=message(c,[b'true']) if c.case(x) else message(c,[b'false'])
    elif T_.kind in('int','float'): r=number_text(c,T_,x)
    elif T_.kind=='str': c.req(x.ok,'the string has contents');r=copy_of(c,x,ok=True)
    elif n=='coil::Value': r=known(c,value_txt(c,x))
    else: raise Unsupported('text form of '+n)
    c.ret(c.T(STR),r)
@contract(r'coil::Expected<(.*), coil::String> coil::Value::get<\1>\(\) const')
def value_get(c):
    from_value_of(c,c.m.group(1),c.this)
def from_value_of(c,name,p):
    v=c.rd(p,c.T('coil::Value'));E=c.T('coil::Expected<%s, coil::String>'%name)
    if c.T(name).kind in('int','float'): errno_havoc(c)
    k,x=convert(c,name,v)
    c.ret(E,ExpV(E,True,x) if k=='ok' else ExpV(E,False,None,x))
