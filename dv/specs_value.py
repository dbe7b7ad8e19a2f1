"""Contracts: special members of every library record, Value, NamedValue, Optional, Expected, Unexpected, UniquePtr (C10, C12)."""
from contracts import *
import specs_text,specs_vec
from specs_vec import newcap,bump
NAMES='Value|NamedValue|ExecutionInput|ExecutionResult|CallContext|Error|Unexpected|Optional|Expected|ErrorMessage|Token'
R=r'(coil::(?:Value|NamedValue|ExecutionInput|ExecutionResult|detail::CallContext|NamedArgs::Error|DefaultLexer::Token|Unexpected<.*>|Optional<.*>|Expected<.*>))'
def move_out(c,T_,v):
    """what is left in an object whose contents were moved into a new object"""
    k=T_.kind
    if isinstance(v,UnspecV) or not T_.owner: return v
    if k=='str': return StrV(0,0,False)
    if k=='vec': return VecV(c.ex.types.el(T_),0,0,v.arr)
    if T_.name.startswith('coil::UniquePtr<'): return RecV(T_,[NULL])
    if T_.name=='coil::AnyFunctor': return RecV(T_,[NULL,move_out(c,T_.fields[1][2],v.vs[1]),UnspecV(T_.fields[2][2])])
    if k=='rec': return RecV(T_,[move_out(c,f[2],x) for f,x in zip(T_.fields,v.vs)])
    if k=='exp':
        if c.case(v.ok): return ExpV(T_,True,move_out(c,T_.Tt,v.val))
        return ExpV(T_,False,None,move_out(c,T_.Et,v.err))
    if k=='opt':
        if c.case(v.has): return OptV(T_,True,move_out(c,T_.Tt,v.val))
        return OptV(T_,False)
    raise Unsupported('move of '+T_.name)
def assign_out(c,T_,old,v):
    """what is left in an object that was move-assigned from (old: the value the target had)"""
    k=T_.kind
    if isinstance(v,UnspecV) or not T_.owner: return v
    if k in('str','vec'): return UnspecV(T_)
    if T_.name.startswith('coil::UniquePtr<'): return old
    if k=='rec': return RecV(T_,[assign_out(c,f[2],o,x) for f,o,x in zip(T_.fields,old.vs if isinstance(old,RecV) else [UnspecV(f[2]) for f in T_.fields],v.vs)])
    if k=='exp':
        if c.case(v.ok): return ExpV(T_,True,UnspecV(T_.Tt) if T_.Tt.owner else v.val)
        return ExpV(T_,False,None,UnspecV(T_.Et))
    if k=='opt':
        if c.case(v.has): return OptV(T_,True,UnspecV(T_.Tt) if T_.Tt.owner else v.val)
        return OptV(T_,False)
    raise Unsupported('move of '+T_.name)
def recap(c,T_,v):
    """the capacity of a copied vector is not prescribed"""
    if v is None or isinstance(v,UnspecV): return v
    if T_.kind=='vec':
        v=VecV(v.elT,v.l,v.l,v.arr);k=fresh_int('cap');c.fact(le(v.l,k),lt(mul(max(v.elT.size,1),k),MAXLEN));v.cap=k;return v
    if T_.kind=='rec': return RecV(T_,[recap(c,f[2],x) for f,x in zip(T_.fields,v.vs)])
    if T_.kind=='exp': return ExpV(T_,v.ok,recap(c,T_.Tt,v.val),recap(c,T_.Et,v.err))
    if T_.kind=='opt': return OptV(T_,v.has,recap(c,T_.Tt,v.val))
    return v
def same(c,a,b):
    a,b=c.h.canon(c.st,a),c.h.canon(c.st,b)
    return a.base is b.base and c.case(eq(a.off,b.off))
@contract(R+r'::(?:%s)\(\)'%NAMES)
def rec_default(c): c.init(c.this,c.clsT,default_of(c,c.clsT))
@contract(R+r'::(?:%s)\(\1 const&\)'%NAMES)
def rec_copy(c):
    v=c.rd(c.p(0));c.init(c.this,c.clsT,deep_copy(c,c.clsT,v))
@contract(R+r'::(?:%s)\(\1&&\)'%NAMES)
def rec_move(c):
    v=c.rd(c.p(0));c.init(c.this,c.clsT,v);c.wr(c.p(0),c.clsT,move_out(c,c.clsT,v))
@contract(R+r'::operator=\(\1 const&\)',alias=[{('same','p0'):0}])
def rec_assign(c):
    v=c.rd(c.p(0));old=c.rd(c.this);n=recap(c,c.clsT,deep_copy(c,c.clsT,v))
    c.h.kill_texts(c.st,c.clsT,old);c.wr(c.this,c.clsT,n);c.ret(c.T('void*'),c.this)
@contract(R+r'::operator=\(\1&&\)',alias=[{('same','p0'):0}])
def rec_massign(c):
    v=c.rd(c.p(0));old=c.rd(c.this)
    if not same(c,c.this,c.p(0)):
        out=assign_out(c,c.clsT,old,v)
        c.h.kill_texts(c.st,c.clsT,old);c.wr(c.p(0),c.clsT,out);c.wr(c.this,c.clsT,v)
    c.ret(c.T('void*'),c.this)
@contract(R+r'::~(?:%s)\(\)'%NAMES)
def rec_dtor(c): c.kill(c.this,c.clsT)

# ---------------------------------------------------------------- Optional
O=r'coil::Optional<(.*)>::'
@contract(O+r'Optional\(\1 const&\)')
def opt_from(c):
    T_=c.clsT;v=c.rd(c.p(0),T_.Tt);c.init(c.this,T_,OptV(T_,True,deep_copy(c,T_.Tt,v)))
@contract(O+r'Optional\(\1&&\)')
def opt_fromm(c):
    T_=c.clsT;v=c.rd(c.p(0),T_.Tt);c.init(c.this,T_,OptV(T_,True,v));c.wr(c.p(0),T_.Tt,move_out(c,T_.Tt,v))
@contract(O+r'(hasValue|operator bool)\(\) const')
def opt_has(c): c.ret(c.T('bool'),c.rd(c.this).has)
def inner(c,T_,off): return c.h.canon(c.st,c.this.plus(off))
@contract(O+r'operator(\*|->)\(\)( const)?')
def opt_get(c):
    T_=c.clsT;v=c.rd(c.this);c.req(v.has,'the optional holds a value')
    c.ret(c.T('void*'),inner(c,T_.Tt,T_.uoff))
def val_eq(c,T_,x,y):
    """operator== of two values; what it decides for records is the conjunction over the members"""
    k=T_.kind
    if k in('int','bool'): return eq(x,y)
    if k in('str','sv'):
        if k=='str': c.req(And(x.ok,y.ok),'the strings have contents (were not moved from)')
        return teq(c.ex,c.st,x,y)
    if k=='ptr': return ptr_eq(c.ex,c.st,x,y)
    if k=='rec':
        es=[]
        for f,a,b in zip(T_.fields,x.vs,y.vs):
            e=val_eq(c,f[2],a,b);es.append(e)
            if not c.case(e): return False
        return True
    if k=='vec': return vec_same(c,c.ex.types.el(T_),x,y)
    raise Unsupported('equality of '+T_.name)
def vec_same(c,el,a,b):
    if not c.case(eq(a.l,b.l)): return False
    r=specs_vec.same_elems(c,el,a,b);return r
@contract(O+r'operator(==|!=)\(coil::Optional<\1> const&\) const',alias=[{('same','p0'):0}])
def opt_eq(c):
    T_=c.clsT;a,b=c.rd(c.this),c.rd(c.p(0))
    if c.case(a.has)!=c.case(b.has): r=False
    elif not c.case(a.has): r=True
    else: r=val_eq(c,T_.Tt,a.val,b.val)
    c.ret(c.T('bool'),r if c.last=='operator==' else Not(r))

# ---------------------------------------------------------------- Unexpected
U=r'coil::Unexpected<(.*)>::'
def conv(c,Tto,Tfrom,v,moved=False):
    """implicit conversion of an error value"""
    if Tto.name==Tfrom.name: return v if moved else deep_copy(c,Tto,v)
    if Tto.kind=='str' and Tfrom.kind=='ptr': return specs_text.copy_of(c,specs_text.cstr_view(c,v))
    if Tto.kind=='str' and Tfrom.kind=='sv': return specs_text.copy_of(c,v)
    raise Unsupported('conversion of %s to %s'%(Tfrom.name,Tto.name))
@contract(U+r'Unexpected\(\1\)')
def unx_ctor(c):
    T_=c.clsT;v=pval(c,0);leave_moved(c,0);c.init(c.this,T_,RecV(T_,[v]))
@contract(U+r'value\(\) ?(const)? ?&?&?')
def unx_value(c):
    c.rd(c.this);c.ret(c.T('void*'),c.this)
@contract(r'coil::Unexpected<(.*)>::operator coil::Unexpected<(.*?)>(?:<\2>)?\(\) ?(const &|&|&&)',nullable=False)
def unx_conv(c):
    T_=c.clsT;v=c.rd(c.this).vs[0];F=T_.fields[0][2];to=c.T('coil::Unexpected<%s>'%c.m.group(2));mv=c.m.group(3)=='&&'
    n=conv(c,to.fields[0][2],F,v,mv)
    if mv: c.wr(c.this,T_,RecV(T_,[move_out(c,F,v)]))
    c.ret(to,RecV(to,[n]))
@contract(r'coil::Unexpected<(.*)> coil::makeUnexpected<.*>\(.*\)')
def make_unexpected(c):
    to=c.T('coil::Unexpected<%s>'%c.m.group(1));v=pval(c,0);leave_moved(c,0)
    c.ret(to,RecV(to,[v]))

# ---------------------------------------------------------------- Expected
X=r'coil::Expected<(.*), (.*)>::'
@contract(X+r'Expected\(\1\)')
def exp_val(c):
    T_=c.clsT;v=pval(c,0);leave_moved(c,0);c.init(c.this,T_,ExpV(T_,True,v))
@contract(X+r'Expected<.*>\(coil::Unexpected<(.*)>\)')
def exp_err(c):
    T_=c.clsT;uT=c.T('coil::Unexpected<%s>'%c.m.group(3));v=pval(c,0).vs[0];leave_moved(c,0)
    E=T_.Et if T_.Et.name.startswith('coil::Unexpected<') is False else T_.Et
    F=uT.fields[0][2]
    c.init(c.this,T_,ExpV(T_,False,None,wrapE(T_,conv(c,errT(T_),F,v,True))))
def errT(T_):
    return T_.Et
def wrapE(T_,v): return v
@contract(X+r'(hasValue|operator bool)\(\) const')
def exp_has(c): c.ret(c.T('bool'),c.rd(c.this).ok)
@contract(X+r'(value|operator\*|operator->)\(\) ?(const)? ?&?&?')
def exp_value(c):
    T_=c.clsT;v=c.rd(c.this);c.req(v.ok,'the expected holds a value')
    c.ret(c.T('void*'),inner(c,T_.Tt,T_.uoff))
@contract(X+r'error\(\) ?(const)? ?&?&?')
def exp_error(c):
    T_=c.clsT;v=c.rd(c.this);c.req(Not(v.ok),'the expected holds an error')
    c.ret(c.T('void*'),inner(c,T_.Et,T_.uoff))
@contract(r'bool coil::Expected<(.*), (.*)>::operator==<.*>\(coil::Expected<\1, \2> const&\) const',alias=[{('same','p0'):0}])
def exp_eq(c):
    T_=c.T('coil::Expected<%s, %s>'%(c.m.group(1),c.m.group(2)));a,b=c.rd(c.this,T_),c.rd(c.p(0),T_)
    if c.case(a.ok)!=c.case(b.ok): r=False
    elif c.case(a.ok): r=val_eq(c,T_.Tt,a.val,b.val)
    else: r=val_eq(c,T_.Et,a.err,b.err)
    c.ret(c.T('bool'),r)

# ---------------------------------------------------------------- Value, NamedValue
SVVEC='coil::Vector<coil::StringView>'
@contract(r'coil::Value::Value\(coil::Vector<coil::StringView>\)')
def value_vec(c):
    T_=c.clsT;v=pval(c,0);leave_moved(c,0);c.init(c.this,T_,RecV(T_,[v]))
def one_piece(c,T_,sv):
    el=c.T('coil::StringView')
    arr=store(z3.Const(fresh_name('pv'),z3.ArraySort(IntS,c.ex.sorts.sort(el))),0,c.ex.sorts.tz(el,sv))
    return RecV(T_,[VecV(el,1,newcap_(c,el,1),arr)])
def newcap_(c,el,n):
    k=fresh_int('cap');c.fact(le(n,k),lt(mul(el.size,k),MAXLEN));return k
@contract(r'coil::Value::Value\(coil::StringView\)')
def value_sv(c): c.init(c.this,c.clsT,one_piece(c,c.clsT,c.p(0)))
@contract(r'coil::Value::Value\(char const\*\)')
def value_cstr(c): c.init(c.this,c.clsT,one_piece(c,c.clsT,specs_text.cstr_view(c,c.p(0))))
@contract(r'coil::(Value|NamedValue)::operator(==|!=)\(coil::\1 const&\) const',alias=[{('same','p0'):0}])
def value_eq(c):
    a,b=c.rd(c.this),c.rd(c.p(0));e=val_eq(c,c.clsT,a,b)
    c.ret(c.T('bool'),e if c.last=='operator==' else Not(e))

# ---------------------------------------------------------------- UniquePtr
UP=r'coil::UniquePtr<(.*)>::'
def upv(c,p=None): return c.rd(p or c.this).vs[0]
def released(c,p):
    """the object p points at is deleted (through its virtual destructor)"""
    c.st.trace.append(('delete',p))
@contract(r'virtual:coil::(Default)?Lexer:2')
def lexer_delete(c): released(c,c.this)
@contract(UP+r'UniquePtr\(\1\*\)',nullable=True)
def up_ctor(c): c.init(c.this,c.clsT,RecV(c.clsT,[c.p(0)]))
@contract(UP+r'UniquePtr\(coil::UniquePtr<\1>&&\)')
def up_move(c):
    v=upv(c,c.p(0));c.init(c.this,c.clsT,RecV(c.clsT,[v]));c.wr(c.p(0),c.clsT,RecV(c.clsT,[NULL]))
@contract(UP+r'operator=\(coil::UniquePtr<\1>&&\)',alias=[{('same','p0'):0}])
def up_massign(c):
    v=upv(c,c.p(0));o=upv(c);c.wr(c.p(0),c.clsT,RecV(c.clsT,[o]));c.wr(c.this,c.clsT,RecV(c.clsT,[v]));c.ret(c.T('void*'),c.this)
@contract(UP+r'~UniquePtr\(\)')
def up_dtor(c):
    v=upv(c)
    if v.base is not None and not c.case(v.null): released(c,v)
    c.kill(c.this,c.clsT)
@contract(UP+r'(get|operator\*|operator->)\(\)( const)?')
def up_get(c):
    v=upv(c)
    if c.last!='get': c.req(Not(v.null),'the pointer owns an object')
    c.ret(c.T('void*'),v)
@contract(UP+r'operator bool\(\) const')
def up_bool(c): c.ret(c.T('bool'),Not(upv(c).null))
