"""Contracts: call context, named arguments, the context handed to user functions (C13, C17)."""
from contracts import *
import specs_text,specs_vec,specs_value,specs_fmt,specs_conv
from specs_text import *
from specs_value import released
from specs_conv import TYPE_NAMES,convert,as_piece
CTX='coil::detail::CallContext'
def fld(c,T_,*names):
    """(offset, type) of a nested member"""
    off=0
    for n in names:
        for o,m,ft in T_.fields:
            if m==n: off+=o;T_=ft;break
        else: raise Unsupported('member %s of %s'%(n,T_.name))
    return off,T_
def at(c,p,T_,*names):
    o,t=fld(c,T_,*names);return c.h.canon(c.st,p.plus(o)),t
def get(c,p,T_,*names):
    q,t=at(c,p,T_,*names);return c.rd(q,t)
def put(c,p,T_,v,*names):
    q,t=at(c,p,T_,*names);c.wr(q,t,v)
def ctx_of(c):
    """the call context a NamedArgs or Context object refers to"""
    return c.rd(c.this).vs[0]
def push(c,vec_p,T_,x):
    """one more element at the end of a vector"""
    v=c.rd(vec_p,T_);el=v.elT
    k=fresh_int('cap');n=add(v.l,1);c.fact(le(n,k),lt(mul(el.size,k),MAXLEN))
    specs_vec.bump(c,vec_p);c.wr(vec_p,T_,VecV(el,n,k,specs_vec.store(v.arr,v.l,c.ex.sorts.tz(el,x))))
def report(c,p,text):
    """an error text is added at the end of the errors of the call context p"""
    q,t=at(c,p,c.T(CTX),'result','errors');push(c,q,t,text)
@contract(r'coil::detail::CallContext::CallContext\(coil::ExecutionInput\)')
def ctx_ctor(c):
    v=pval(c,0);leave_moved(c,0)
    R=c.T('coil::ExecutionResult');c.init(c.this,c.clsT,RecV(c.clsT,[v,default_of(c,R)]))
@contract(r'coil::detail::CallContext::hasErrors\(\) const')
def ctx_has(c): c.ret(c.T('bool'),lt(0,get(c,c.this,c.clsT,'result','errors').l))
@contract(r'coil::detail::CallContext::reportError\(coil::String\)')
def ctx_report(c):
    v=pval(c,0);leave_moved(c,0)
    c.req(lt(get(c,c.this,c.clsT,'result','errors').l,specs_vec.BIG),'the number of errors is below the allocation limit')
    report(c,c.this,v)
# ---------------------------------------------------------------- named arguments
@contract(r'coil::NamedArgs::Error::Error\(coil::NamedArgs::Error::Type, coil::String\)')
def err_ctor(c):
    v=pval(c,1);leave_moved(c,1);c.init(c.this,c.clsT,RecV(c.clsT,[c.p(0),v]))
@contract(r'coil::(NamedArgs|Context)::\1\(coil::detail::CallContext&\)')
def na_ctor(c): c.init(c.this,c.clsT,RecV(c.clsT,[c.p(0)]))
@contract(r'coil::Context coil::detail::createContext<0ul>\(coil::detail::CallContext&\)')
def make_ctx(c):
    T_=c.T('coil::Context');c.ret(T_,RecV(T_,[c.p(0)]))
def na_vec(c,p=None):
    """(pointer to the vector of named arguments, its value)"""
    q,t=at(c,ctx_of(c) if p is None else p,c.T(CTX),'input','namedArguments');return q,t,c.rd(q,t)
def el_ptr(c,q,t,i):
    el=c.ex.types.el(t);ep=c.st.epoch.get((q.base,str(q.off)),0)
    return c.h.canon(c.st,Ptr(VecBase(q,el,ep),mul(i,el.size)))
@contract(r'coil::NamedArgs::size\(\) const')
def na_size(c): c.ret(c.T('unsigned long'),na_vec(c)[2].l)
@contract(r'coil::NamedArgs::(begin|end)\(\) const')
def na_begin(c):
    q,t,v=na_vec(c);p=el_ptr(c,q,t,v.l if c.last=='end' else 0)
    c.ret(c.T('void*'),Ptr(p.base,p.off,simp(eq(v.cap,0)) if isz(v.cap) else v.cap==0))
def key_at(c,v,i):
    x=c.ex.sorts.fz(v.elT,sel(v.arr,i));return x.vs[[f[1] for f in v.elT.fields].index('key')]
def first_of(c,v,key):
    """the index of the first named argument with the given key, or the number of arguments"""
    i=z3.Function('FIRST_'+v.elT.name,v.arr.sort(),IntS,Txt,IntS)(v.arr,zi(v.l),key.txt);j=z3.Int('nj')
    def same_(k): return key_at(c,v,k).txt==key.txt
    c.fact(le(0,i),le(i,v.l),z3.ForAll([j],z3.Implies(z3.And(0<=j,j<zi(i)),z3.Not(same_(j))),patterns=[z3.Select(v.arr,j)]),Implies(lt(i,v.l),same_(i)))
    return i
def find_hints(ex,g,entry,h,ints,arrs):
    """no argument before the position has the key"""
    out=[];keys=[];vecs=[]
    for b,d in entry.mem.items():
        for o,(sz,T_,v) in d.cells.items():
            if isinstance(v,SVV) and b.kind!='param': keys.append(v)
            if isinstance(v,Ptr) and isinstance(v.base,TextBase) and o+8 in d.cells: keys.append(SVV(v.base.bid,v.off,d.cells[o+8][2]))
            if b.kind=='param':
                for x in specs_conv.sub_vecs(v):
                    if x.elT.name=='coil::NamedValue' and not any(x.arr.eq(y.arr) for y in vecs): vecs.append(x)
    for v in vecs:
        for key in keys:
            for X in ints:
                j=z3.Int('nj')
                def f(st,v=v,key=key,X=X):
                    c=specs_fmt.Ctx(ex,st)
                    return z3.ForAll([j],z3.Implies(z3.And(0<=j,j<zi(X.get(ex,st))),key_at(c,v,j).txt!=key.txt),patterns=[z3.Select(v.arr,j)])
                out.append(('no key before %s'%X.name,f))
    return out
@contract(r'coil::NamedArgs::find\(coil::StringView\) const',hints=find_hints)
def na_find(c):
    q,t,v=na_vec(c);key=c.p(0);c.h.alive_text(c.st,key.b,'key')
    i=first_of(c,v,key);p=el_ptr(c,q,t,i)
    c.ret(c.T('void*'),Ptr(p.base,p.off,simp(eq(v.cap,0)) if isz(v.cap) else v.cap==0))
def missing(c,key):
    c.ex.assumed.add(specs_fmt.LIMIT);c.fact(lt(key.l,1<<31))
    return message(c,[b"Missing named argument '",as_piece(c,key),b"'"])
EREF='coil::Expected<coil::ReferenceWrapper<coil::Value const>, coil::NamedArgs::Error>'
def na_lookup(c,key):
    """('ok', index) or ('err', error record)"""
    q,t,v=na_vec(c);i=first_of(c,v,key)
    if c.case(lt(i,v.l)): return True,i,(q,t,v)
    E=c.T('coil::NamedArgs::Error');return False,RecV(E,[0,missing(c,key)]),(q,t,v)
def val_ptr(c,i,qtv):
    q,t,v=qtv;o,_=fld(c,v.elT,'value');p=el_ptr(c,q,t,i);return Ptr(p.base,add(p.off,o))
def val_at(c,i,v):
    x=c.ex.sorts.fz(v.elT,sel(v.arr,i));c.fact(*c.ex.sorts.inv(v.elT,x));return x.vs[[f[1] for f in v.elT.fields].index('value')]
@contract(r'coil::NamedArgs::get\(coil::StringView\) const')
def na_get(c):
    ok,x,qtv=na_lookup(c,c.p(0));E=c.T(EREF)
    c.ret(E,ExpV(E,True,RecV(E.Tt,[val_ptr(c,x,qtv)])) if ok else ExpV(E,False,None,x))
REQUIRED=1
@contract(r'coil::NamedArgs::getOrReport\(coil::StringView, coil::NamedArgs::ArgType\) const')
def na_gor(c):
    ctx=ctx_of(c)
    c.req(lt(get(c,ctx,c.T(CTX),'result','errors').l,specs_vec.BIG),'the number of errors is below the allocation limit')
    ok,x,qtv=na_lookup(c,c.p(0))
    if ok: c.ret(c.T('void*'),val_ptr(c,x,qtv));return
    if c.case(eq(c.p(1),REQUIRED)): report(c,ctx,x.vs[1])
    c.ret(c.T('void*'),NULL)
def na_typed(c,name,key):
    """(converted, value) or (False, error record)"""
    E=c.T('coil::NamedArgs::Error');ok,x,qtv=na_lookup(c,key)
    if not ok: return False,x
    if c.T(name).kind in('int','float'): specs_fmt.errno_havoc(c)
    k,r=convert(c,name,val_at(c,x,qtv[2]))
    if k=='ok': return True,r
    return False,RecV(E,[1,r])
@contract(r'coil::Expected<(.*), coil::NamedArgs::Error> coil::NamedArgs::get<\1>\(coil::StringView\) const')
def na_getT(c):
    T_=c.T('coil::Expected<%s, coil::NamedArgs::Error>'%c.m.group(1));ok,x=na_typed(c,c.m.group(1),c.p(0))
    c.ret(T_,ExpV(T_,True,x) if ok else ExpV(T_,False,None,x))
@contract(r'coil::Optional<(.*)> coil::NamedArgs::getOrReport<\1>\(coil::StringView, coil::NamedArgs::ArgType, coil::Optional<\1>\) const')
def na_gorT(c):
    n=c.m.group(1);O=c.T('coil::Optional<%s>'%n);ctx=ctx_of(c)
    c.req(lt(get(c,ctx,c.T(CTX),'result','errors').l,specs_vec.BIG),'the number of errors is below the allocation limit')
    d=pval(c,2);leave_moved(c,2)
    ok,x=na_typed(c,n,c.p(0))
    if ok: r=OptV(O,True,x)
    elif x.vs[0]==0 and c.case(eq(c.p(1),0)): r=d
    else: report(c,ctx,x.vs[1]);r=OptV(O,False)
    c.ret(O,r)
# ---------------------------------------------------------------- context
def log_(c,w,newline=False):
    """the text (and a newline) is appended to the output of the call"""
    p=ctx_of(c);q,t=at(c,p,c.T(CTX),'result','output');v=c.rd(q,t)
    c.req(v.ok,'the output has contents')
    c.req(lt(add(add(v.l,w.l),2),SMALL),'the resulting output is a possible allocation size')
    n=cat_of(c,v,w)
    if newline:
        A=CH(zi(n.b));m=c.text(add(n.l,1),lambda j:z3.If(j<zi(n.l),z3.Select(A,j),10));joined(c,m,[n,b'\n']);n=m
    c.h.kill_texts(c.st,t,v);c.wr(q,t,n)
@contract(r'coil::Context::log(line)?\(coil::String const&\)')
def cx_log(c):
    w=c.rd(c.p(0),c.T(STR));c.req(w.ok,'the text has contents (was not moved from)');log_(c,w,c.last=='logline')
@contract(r'coil::Context::log(line)?f\(char const\*, \.\.\.\)')
def cx_logf(c):
    if c.mode=='spec':
        v=specs_fmt.cstr_full(c,c.p(0));t=specs_fmt.formatted_txt(c,v,VAARGS);r=c.text(TLEN(t),specs_fmt.FARR(t),txt=t);r.ghost_text=True
    else:
        n=len(c.params)-1;vals=c.params[n][1];tys=c.tys[len(c.args)-len(vals):];r=specs_fmt.formatted(c,c.p(0),(vals,tys))
    log_(c,r,c.last=='loglinef')
@contract(r'coil::Context::reportError\(coil::String\)')
def cx_report(c):
    v=pval(c,0);leave_moved(c,0);p=ctx_of(c)
    c.req(lt(get(c,p,c.T(CTX),'result','errors').l,specs_vec.BIG),'the number of errors is below the allocation limit')
    report(c,p,v)
@contract(r'coil::Context::hasErrors\(\) const')
def cx_has(c): c.ret(c.T('bool'),lt(0,get(c,ctx_of(c),c.T(CTX),'result','errors').l))
@contract(r'coil::Context::namedArgs\(\)')
def cx_na(c):
    T_=c.T('coil::NamedArgs');c.ret(T_,RecV(T_,[ctx_of(c)]))
