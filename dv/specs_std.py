"""Contracts: conversions of standard strings, vectors and optionals (C19). The contracts of the standard containers themselves are assumed."""
from contracts import *
import specs_text,specs_vec,specs_value,specs_fmt,specs_conv
from specs_text import *
from specs_value import move_out
from specs_fmt import number_text,errno_havoc,parsed,LIMIT
from specs_conv import convert,value_txt,known,as_piece,error_text,value_piece,sub_vecs,TYPE_NAMES,unx
from cxxtypes import norm,split_targs
from loops import has_ite
SV=r'std::vector<.*>::'
SS=r'std::__cxx11::basic_string<char, .*>::'
SO=r'std::optional<.*>::'
def std_name(n):
    n=norm(n)
    if n in('std::string','std::string_view'): return b'string'
    for p,w in (('std::vector<',b'vector<'),('std::optional<',b'optional<')):
        if n.startswith(p): return w+(std_name(split_targs(n)[0]) or TYPE_NAMES[split_targs(n)[0]])+b'>'
    return None
class Names(dict):
    def get(s,k,d=None): return dict.get(s,k) or std_name(k) or d
    def __missing__(s,k):
        r=std_name(k)
        if r is None: raise KeyError(k)
        return r
specs_conv.TYPE_NAMES=TYPE_NAMES=Names(TYPE_NAMES)
def lib(c): c.ex.assumed.add('std::string, std::string_view, std::vector and std::optional behave as ISO C++ specifies')
# ---------------------------------------------------------------- assumed: the standard containers
@contract(SV+r'vector\(\)')
def sv_default(c): lib(c);el=specs_vec.elT(c);c.init(c.this,c.clsT,VecV(el,0,0,empty_arr(c.ex,el)))
@contract(SV+r'vector\(std::vector<.*> ?&&\)')
def sv_move(c): lib(c);specs_vec.vec_move(c)
@contract(SV+r'vector\(std::vector<.*> const&\)')
def sv_copy(c): lib(c);specs_vec.vec_copy(c)
@contract(SV+r'~vector\(\)')
def sv_dtor(c): c.kill(c.this,c.clsT)
@contract(SV+r'reserve\(unsigned long\)')
def sv_reserve(c):
    v=c.rd(c.this);n=c.p(0);c.req(lt(n,1<<50),'capacity is a possible allocation size')
    k=specs_vec.newcap(c,v.l);c.fact(le(n,k));specs_vec.bump(c,c.this);c.wr(c.this,c.clsT,VecV(v.elT,v.l,k,v.arr))
@contract(SV+r'(push_back|emplace_back)(<.*>)?\(.*\)')
def sv_push(c):
    v=c.rd(c.this);el=specs_vec.elT(c);p=c.params[0][1];t=norm(c.params[0][0])
    x=c.rd(p,el)
    if t.endswith('&&'): c.wr(p,el,move_out(c,el,x))
    else: x=deep_copy(c,el,x)
    specs_vec.bump(c,c.this);c.wr(c.this,c.clsT,VecV(el,add(v.l,1),specs_vec.newcap(c,add(v.l,1)),specs_vec.store(v.arr,v.l,c.ex.sorts.tz(el,x))))
    if c.last.startswith('emplace_back'): c.ret(c.T('void*'),specs_vec.elem_ptr(c,v.l))
@contract(SV+r'(size|capacity|empty)\(\) const')
def sv_size(c): specs_vec.vec_size(c)
@contract(SV+r'(begin|end|data|cbegin|cend)\(\)( const)?')
def sv_begin(c):
    c.last=c.last.replace('cbegin','begin').replace('cend','end');specs_vec.vec_begin(c)
@contract(SV+r'(front|back)\(\)( const)?')
def sv_front(c): specs_vec.vec_front(c)
@contract(SV+r'operator\[\]\(unsigned long\)( const)?')
def sv_index(c): specs_vec.vec_index(c)
@contract(SS+r'basic_string\(char const\*, unsigned long, std::allocator<char> const&\)')
def ss_pl(c): lib(c);c.init(c.this,c.clsT,copy_of(c,ptr_view(c,c.p(0),c.p(1)),ok=True))
@contract(SS+r'basic_string(<.*>)?\(char const\*, std::allocator<char> const&\)')
def ss_cstr(c): lib(c);c.init(c.this,c.clsT,copy_of(c,cstr_view(c,c.p(0))))
@contract(SS+r'basic_string<char const\*(, .*)?>\(char const\*, char const\*, std::allocator<char> const&\)')
def ss_range(c):
    lib(c);p,q=c.p(0),c.p(1);b,o=c.h.as_text(c.st,p);b2,o2=c.h.as_text(c.st,q)
    c.req(And(eq(b,b2),le(0,o),le(o,o2),le(o2,BSZ(zi(b)))),'the range lies in one text')
    c.init(c.this,c.clsT,copy_of(c,SVV(b,o,sub(o2,o)),ok=True))
@contract(SS+r'basic_string<std::basic_string_view<.*>(, .*)?>\(std::basic_string_view<.*> const&, std::allocator<char> const&\)')
def ss_ofview(c): lib(c);c.init(c.this,c.clsT,copy_of(c,c.rd(c.p(0),c.T('std::string_view')),ok=True))
@contract(SS+r'(append|operator\+=|assign|operator=)\((char const\*(, unsigned long)?|std::__cxx11::basic_string<.*> const&)\)')
def ss_append(c):
    T_=c.clsT;v=c.rd(c.this);w=c.rd(c.p(0),T_) if '&' in c.params[0][0] else ptr_view(c,c.p(0),c.p(1)) if len(c.params)>1 else cstr_view(c,c.p(0))
    r=cat_of(c,v,w) if c.last in('append','operator+=') else copy_of(c,w,ok=True)
    c.h.kill_texts(c.st,T_,v);c.wr(c.this,T_,r);c.ret(c.T('void*'),c.this)
@contract(SS+r'basic_string\(std::__cxx11::basic_string<.*> ?&&\)')
def ss_move(c):
    T_=c.clsT;v=c.rd(c.p(0));c.init(c.this,T_,v);c.wr(c.p(0),T_,StrV(0,0,False))
@contract(SS+r'basic_string\(std::__cxx11::basic_string<.*> const&\)')
def ss_copy(c):
    v=c.rd(c.p(0));c.init(c.this,c.clsT,copy_of(c,v,ok=v.ok))
@contract(SS+r'basic_string\(\)')
def ss_default(c): c.init(c.this,c.clsT,default_of(c,c.clsT))
@contract(SS+r'~basic_string\(\)')
def ss_dtor(c): c.kill(c.this,c.clsT)
@contract(SS+r'(size|length|empty)\(\) const')
def ss_size(c):
    v=c.rd(c.this);c.ret(c.T('bool'),eq(v.l,0)) if c.last=='empty' else c.ret(c.T('unsigned long'),v.l)
@contract(SS+r'(data|c_str)\(\) const')
def ss_data(c):
    v=c.rd(c.this);c.ret(c.T('char*'),c.h.canon(c.st,Ptr(TextBase(v.b),0)))
@contract(SS+r'operator std::basic_string_view<.*>\(\) const')
def ss_view(c):
    lib(c);v=c.rd(c.this);c.ret(c.T('std::string_view'),SVV(v.b,0,v.l))
@contract(SO+r'optional\((std::nullopt_t)?\)')
def so_default(c): lib(c);c.init(c.this,c.clsT,OptV(c.clsT,False))
@contract(SO+r'optional<.*>\(.*&&\)')
def so_from(c):
    lib(c);T_=c.clsT;v=c.rd(c.params[0][1],T_.Tt);c.init(c.this,T_,OptV(T_,True,v));c.wr(c.params[0][1],T_.Tt,move_out(c,T_.Tt,v))
@contract(SO+r'optional\(std::optional<.*> ?&&\)')
def so_move(c):
    v=c.rd(c.p(0));c.init(c.this,c.clsT,v);c.wr(c.p(0),c.clsT,move_out(c,c.clsT,v))
@contract(SO+r'optional\(std::optional<.*> const&\)')
def so_copy(c): c.init(c.this,c.clsT,deep_copy(c,c.clsT,c.rd(c.p(0))))
@contract(SO+r'~optional\(\)')
def so_dtor(c): c.kill(c.this,c.clsT)
@contract(SO+r'(has_value|operator bool)\(\) const')
def so_has(c): c.ret(c.T('bool'),c.rd(c.this).has)
@contract(SO+r'(value|operator\*|operator->)\(\) ?(const)? ?&?&?')
def so_value(c):
    c.req(c.rd(c.this).has,'the optional holds a value');c.ret(c.T('void*'),c.h.canon(c.st,c.this.plus(c.clsT.uoff)))
# ---------------------------------------------------------------- conversion helpers
@contract(r'coil::toStdString(?:\[abi:cxx11\])?\(coil::StringView\)')
def to_std(c): c.ret(c.T('std::string'),copy_of(c,c.p(0)))
@contract(r'coil::toStdStringView\(coil::StringView\)')
def to_stdv(c): c.ret(c.T('std::string_view'),c.p(0))
@contract(r'coil::fromStdString\(std::basic_string_view<.*>\)')
def from_std(c): c.ret(c.T(STR),copy_of(c,c.p(0)))
@contract(r'coil::fromStdStringView\(std::basic_string_view<.*>\)')
def from_stdv(c): c.ret(c.T('coil::StringView'),c.p(0))
# ---------------------------------------------------------------- serializers
def single(c,x):
    """the value of one piece"""
    V=c.T('coil::Value');el=c.T('coil::StringView')
    return RecV(V,[VecV(el,1,1,specs_vec.store(empty_arr(c.ex,el),0,c.ex.sorts.tz(el,x)))])
def accepted(ex,T_,x):
    """a formula: the piece converts to the type"""
    if T_.kind=='str': return True
    t=x.txt;l=x.l
    if T_.name in specs_fmt.W:
        w,s=specs_fmt.W[T_.name];lo,hi=(-(1<<(w-1)),(1<<(w-1))-1) if s else (0,(1<<w)-1)
        P,V=specs_fmt.PEND,specs_fmt.PVAL
        return z3.And(P(t)==zi(l),P(t)>0,V(t)>=lo,V(t)<=hi,*([] if s else [z3.Not(specs_fmt.PNEG(t))]))
    k=T_.name;return z3.And(specs_fmt.FEND[k](t)==zi(l),zi(l)>0,z3.Not(specs_fmt.FERR[k](t)))
def is_value(ex,T_,y,x):
    """a formula: y is what the piece x converts to"""
    if T_.kind=='str': return And(y.txt==x.txt,eq(y.l,x.l),y.ok)
    if T_.name in specs_fmt.W:
        w=specs_fmt.W[T_.name][0];V=specs_fmt.PVAL(x.txt);return eq(y,z3.If(V<0,V+(1<<w),V))
    return y.t==specs_fmt.FVAL[T_.name](x.txt)
def conv_one(c,name,x):
    T_=c.T(name)
    if T_.kind in('int','float'): errno_havoc(c)
    return convert_any(c,name,single(c,x))
def with_details(c,name,v,t):
    """the error of converting v to the type, with the text of another error as its details"""
    vt=value_piece(c,v)
    c.ex.assumed.add(LIMIT);c.fact(lt(t.l,1<<31))
    if c.case(eq(t.l,0)): return error_text(c,TYPE_NAMES[name],vt)
    return error_text(c,TYPE_NAMES[name],vt,[as_piece(c,t)])
def convert_any(c,name,v):
    T_=c.T(name);vec=v.vs[0];so=c.ex.sorts
    if name.startswith('std::vector<'):
        el=c.ex.types.el(T_);n=vec.l;j=z3.Int('vj')
        x=lambda k:so.fz(vec.elT,sel(vec.arr,k))
        i=z3.Function('FIRST_BAD_'+el.name,vec.arr.sort(),IntS,IntS)(vec.arr,zi(n))
        c.fact(le(0,i),le(i,n),z3.ForAll([j],z3.Implies(z3.And(0<=j,j<zi(i)),zb(accepted(c.ex,el,x(j)))),patterns=[z3.Select(vec.arr,j)]),Implies(lt(i,n),Not(accepted(c.ex,el,x(i)))))
        if c.case(lt(i,n)):
            y=x(i);c.fact(*so.inv(vec.elT,y))
            k,t=conv_one(c,el.name,y)
            if k=='ok': raise Infeasible()
            return 'err',with_details(c,name,v,t)
        R=z3.Const(fresh_name('conv'),z3.ArraySort(IntS,so.sort(el)));k=fresh_int('cap')
        c.fact(le(n,k),lt(mul(el.size,k),MAXLEN))
        c.fact(z3.ForAll([j],z3.Implies(z3.And(0<=j,j<zi(n)),zb(is_value(c.ex,el,so.fz(el,z3.Select(R,j)),x(j)))),patterns=[z3.Select(R,j)]))
        r=VecV(el,n,k,R);return 'ok',r
    if name.startswith('std::optional<'):
        if c.case(eq(vec.l,0)): return 'ok',OptV(T_,False)
        x=so.fz(vec.elT,sel(vec.arr,0));c.fact(*so.inv(vec.elT,x))
        if c.case(eq(x.l,0)): return 'ok',OptV(T_,False)
        k,r=conv_one(c,T_.Tt.name,x)
        if k=='ok': return 'ok',OptV(T_,True,r)
        return 'err',with_details(c,name,v,r)
    if name=='std::string_view':
        if not c.case(eq(vec.l,1)): return 'err',specs_conv.mismatch(c,b'string',v,1)
        x=so.fz(vec.elT,sel(vec.arr,0));c.fact(*so.inv(vec.elT,x));return 'ok',x
    return convert(c,name,v)
def vec_hints(ex,g,entry,h,ints,arrs):
    """the pieces so far were all accepted, and the elements so far are what they convert to"""
    out=[];vecs=[];so=ex.sorts
    for b,d in h.mem.items():
        for o,(sz,T_,v) in d.cells.items():
            for x in sub_vecs(v):
                if x.elT.kind=='sv' and not any(x.arr.eq(y.arr) for y in vecs): vecs.append(x)
    idx=[L for L in ints if L.sub and isinstance(L.sub[-1],tuple)]+[L for L in ints if not(L.sub and isinstance(L.sub[-1],tuple))]
    for v in vecs:
        for A in arrs:
            el=A.T
            if el.kind not in('int','float','str'): continue
            for X in idx:
                j=z3.Int('vj');x=so.fz(v.elT,z3.Select(v.arr,j))
                a=accepted(ex,el,x)
                if a is not True:
                    out.append(('the first %s pieces are accepted'%X.name,lambda st,X=X,a=a,j=j,v=v:z3.ForAll([j],z3.Implies(z3.And(0<=j,j<zi(X.get(ex,st))),zb(a)),patterns=[z3.Select(v.arr,j)])))
                def f(st,X=X,A=A,el=el,x=x,j=j):
                    a=A.get(ex,st)
                    if has_ite(a): n=z3.Const(fresh_name('arr'),a.sort());st.assume(n==a);a=n
                    t=z3.Select(a,j)
                    return z3.ForAll([j],z3.Implies(z3.And(0<=j,j<zi(X.get(ex,st))),zb(is_value(ex,el,so.fz(el,t),x))),patterns=[t])
                out.append(('%s[0..%s) are the converted pieces'%(A.name,X.name),f))
    return out
SER=r'coil::TypeSerializer<(std::.*?)(?:, void)?>::'
@contract(SER+r'fromString\(coil::Value const&\)',hints=vec_hints)
def std_from(c):
    name=norm(c.m.group(1));v=c.rd(c.p(0),c.T('coil::Value'));E=c.T('coil::Expected<%s, coil::String>'%name)
    k,x=convert_any(c,name,v)
    c.ret(E,ExpV(E,True,x) if k=='ok' else ExpV(E,False,None,x))
JV={}
def el_text(ex,el,t):
    y=ex.sorts.fz(el,t)
    if el.kind=='str': return y.txt
    if el.name in specs_fmt.W:
        w,sg=specs_fmt.W[el.name];return specs_fmt.DECS(specs_fmt.sgn(y,w) if sg else y)
    if el.name=='double': return z3.If(z3.fpLT(z3.fpAbs(y.t),z3.FPVal(1e-6,FPS['double'])),z3.Const('lit:30',Txt),specs_fmt.G6(y.t))
    raise Unsupported('text of elements of type '+el.name)
def JOINV(ex,el):
    """[ followed by the text forms of the first elements separated by comma and space"""
    if el.name not in JV:
        srt=ex.sorts.sort(el);op=z3.Const('lit:'+b'['.hex(),Txt);com=z3.Const('lit:'+b', '.hex(),Txt)
        def body(A,n):
            F=JV[el.name];j=F(A,n);p=F(A,n-1);e=el_text(ex,el,z3.Select(A,n-1))
            return [z3.Implies(n<=0,j==op),z3.Implies(n==1,j==CAT(op,e)),z3.Implies(n>1,j==CAT(CAT(p,com),e)),TLEN(j)>=1]
        JV[el.name]=SpecFn('JOINED_'+el.name,[z3.ArraySort(IntS,srt),IntS],Txt,body)
    return JV[el.name]
def join_hints(ex,g,entry,h,ints,arrs):
    out=[];strs=[];views=[];vecs=[]
    for b,d in h.mem.items():
        for o,(sz,T_,v) in d.cells.items():
            if isinstance(v,StrV) and (b.kind!='param' or b.name=='result') and T_.name==STR: strs.append((b,o,T_))
            if isinstance(v,SVV) and b.kind=='stack': views.append((b,o,T_))
            if b.kind=='param':
                for x in sub_vecs(v): vecs.append(x)
    idx=[L for L in ints if L.sub and isinstance(L.sub[-1],tuple)]+[L for L in ints if not L.sub]
    for v in vecs:
        J=JOINV(ex,v.elT)
        for X in idx:
            for b,o,T_ in strs:
                out.append(('the text so far is that of the first %s elements'%X.name,lambda st,b=b,o=o,T_=T_,X=X,v=v,J=J:ex.h.read_cells(st,b,o,T_).txt==J(v.arr,zi(X.get(ex,st)))))
                out.append(('%s has contents'%b.name,lambda st,b=b,o=o,T_=T_:ex.h.read_cells(st,b,o,T_).ok))
            for b,o,T_ in views:
                def f(st,b=b,o=o,T_=T_,X=X):
                    s=ex.h.read_cells(st,b,o,T_);ps=pieces(specs_fmt.Ctx(ex,st),s);i=X.get(ex,st)
                    if all(isinstance(x,bytes) for x in ps): return {b'':eq(i,0),b', ':lt(0,i)}.get(b''.join(ps),False)
                    return And(Implies(eq(i,0),eq(s.l,0)),Implies(lt(0,i),And(eq(s.l,2),s.txt==z3.Const('lit:'+b', '.hex(),Txt))))
                out.append(('%s separates the elements'%b.name,f))
    return out
def text_any(c,T_,x):
    if T_.name.startswith('std::vector<'):
        el=c.ex.types.el(T_)
        for z in (b'[',b', ',b']',b'0'): lit_txt(c,z)
        if el.kind=='str':
            j=z3.Int('oj');c.req(z3.ForAll([j],z3.Implies(z3.And(0<=j,j<zi(x.l)),zb(c.ex.sorts.fz(el,z3.Select(x.arr,j)).ok)),patterns=[z3.Select(x.arr,j)]),'the strings have contents (were not moved from)')
        t=JOINV(c.ex,el)(x.arr,zi(x.l));c.fact(TLEN(t)>=0)
        r=CAT(t,lit_txt(c,b']'));c.fact(TLEN(r)==TLEN(t)+1,TLEN(r)<(1<<31));return known(c,r)
    if T_.name.startswith('std::optional<'):
        if not c.case(x.has): return default_of(c,c.T(STR))
        return text_any(c,T_.Tt,x.val)
    if T_.name=='std::string_view': return copy_of(c,x)
    if T_.kind=='str': c.req(x.ok,'the string has contents (was not moved from)');return copy_of(c,x,ok=True)
    return number_text(c,T_,x)
@contract(SER+r'toString\(\1 ?const&\)',hints=join_hints)
def std_to(c):
    T_=c.T(norm(c.m.group(1)));c.ret(c.T(STR),text_any(c,T_,c.rd(c.p(0),T_)))
