"""Contracts: from the call of a registered function to the user's function and back (C05, C14, C15, C20, C21, C10)."""
from contracts import *
import specs_text,specs_vec,specs_value,specs_fmt,specs_conv,specs_calls,specs_reg
from specs_text import *
from specs_conv import TYPE_NAMES,convert,value_txt,known
from specs_calls import CTX,fld,at,get,put,push,report
from specs_reg import outcome,INP,RES,AF
from specs_fmt import number_text,errno_havoc
from cxxtypes import split_targs,norm,MEMP,FNP
import state as ST
import ir
from core import *
FW='coil::detail::FunctionWrapper<'
OS='coil::Optional<coil::String>'
IN=dict(calls='inline')
def targs(n): return split_targs(n) if '<' in n else []
def last_targs(last):
    """template arguments of the last name of a qualified name"""
    i=last.index('<');return [x.strip() for x in split_targs('_'+last[i:last.rindex('>')+1])]
def bare(t):
    """the type without reference and const"""
    t=norm(t);t=re.sub(r'&&?$','',t).strip();return re.sub(r'\s*\bconst$','',t).strip()
def user_types(args): return [bare(a) for a in args if bare(a)!='coil::Context']
# ---------------------------------------------------------------- calls of user code
RETURNS={'user::Sum':'int','user::Note':'void','user::Get':'coil::String','user::Set':'void'}
STATEFUL=('user::Note',)
ARGS={'user::Sum':['int','coil::String'],'user::Note':['coil::Context','bool','coil::Value const&'],'user::Get':[],'user::Set':['coil::String const&']}
def called(c,what,args,ret):
    """user code runs with these arguments ((type, value) or a pointer): it may change the result of a call context it was given, and returns anything"""
    c.st.trace.append(what+tuple(args));n=len(c.st.trace)
    for a in args:
        if isinstance(a,Ptr) and a.base is not None and isinstance(a,CtxPtr):
            C_=c.T(CTX);c.ex.assumed.add('an invoked user function changes nothing of the call but its result')
            specs_reg.after_call(c,a,n)
    if c.ex.throws and specs_reg.throws(c,n): raise Thrown(n)
    if norm(ret)=='void': return None
    if norm(ret)[-1] in '&*':
        X=c.T(pref(norm(ret)));b=c.st.new_block('returned','global',X.size,X);p=Ptr(b,0,z3.Bool('outcome of call %d is null'%n) if norm(ret).endswith('*') else False)
        c.h.write_obj(c.st,Ptr(b,0),X,outcome(c,X,'outcome of call %d'%n),construct=True);return p
    return outcome(c,c.T(bare(ret)),'outcome of call %d'%n)
class CtxPtr(Ptr):
    """a call context given to user code"""
    __slots__=()
def ctx_arg(p): return CtxPtr(p.base,p.off,p.null)
def take(c,ptypes,raw):
    """the arguments of a call as the callee sees them; objects passed by value are moved from"""
    out=[];k=0
    for pt in ptypes:
        n=norm(pt);T_=c.T(bare(pt))
        if n.endswith('&'):
            out.append((T_,c.rd(raw[k],T_)));k+=1
        elif n=='coil::Context': out.append(ctx_arg(raw[k]));k+=1
        elif n.endswith('*'): out.append(raw[k]);k+=1
        elif T_.kind=='sv': out.append((T_,c.h.mk_view(c.st,*ptr_len(T_,raw[k:k+2]))));k+=2
        elif isinstance(raw[k],Ptr) and T_.kind!='ptr':
            out.append((T_,c.rd(raw[k],T_)));c.wr(raw[k],T_,UnspecV(T_) if T_.owner else c.rd(raw[k],T_));k+=1
        elif T_.kind=='bool': v=raw[k];out.append((T_,v if isinstance(v,bool) or z3.is_bool(v) else i2b(v)));k+=1
        elif T_.kind in('int','float'): out.append((T_,raw[k]));k+=1
        else: raise Unsupported('argument of type '+pt)
    if k!=len(raw): raise Unsupported('arguments of an indirect call')
    return out
def fn_sig(c,fn):
    T_=c.ex.types.cache.get(fn.base.cls) or c.ex.types.cache.get(fn.base.cls[3:])
    if T_ is None or not getattr(T_,'sig',None): raise Unsupported('call through '+fn.base.cls)
    return T_.sig
def destroy_known(c,W,p):
    """the function a wrapper holds is destroyed, if it holds one"""
    v=c.rd(p,W);i=[f[1] for f in W.fields].index('m_func')
    if not c.case(v.vs[i].null): c.st.trace.append(('destroy the function',(W,v)))
    vs=list(v.vs);vs[i]=NULL;c.wr(p,W,RecV(W,vs))
@contract(r'indirect:')
def indirect(c):
    ret,cls,pts=fn_sig(c,c.fn);raw=list(c.raw)
    if cls is None: what=('call',c.fn)
    else:
        o=raw.pop(0);W=c.T(cls)
        if cls.startswith(FW):
            if norm(ret)=='void': destroy_known(c,W,o);return
            what=('call',c.fn,(W,c.rd(o,W)))
        else: what=('call',c.fn,o)
    r=called(c,what,take(c,pts,raw),ret)
    if r is not None: c.ret(c.T('void*' if isinstance(r,Ptr) else bare(ret)),r)
CUSTOM='user::Custom';TYPE_NAMES[CUSTOM]=b'Custom'
def user_fn(k,vec): return z3.Function(k,vec.arr.sort(),IntS,BoolS if k.endswith('?') else Txt)(vec.arr,zi(vec.l))
def user_text(c,t):
    c.fact(TLEN(t)>=0,TLEN(t)<MAXLEN);r=c.text(TLEN(t),txt=t);r.ghost_text=True;return r
def user_convert(c,v):
    """the user's own conversion: a function of the value, which may throw"""
    c.ex.assumed.add("a user type's serializer is a function of what it is given; it may throw")
    vec=v.vs[0]
    if c.ex.throws and c.case(user_fn('CONVERSION_THROWS?',vec)): user_throws(c,(c.T('coil::Value'),v))
    if c.case(user_fn('CONVERTS?',vec)): return 'ok',RecV(c.T(CUSTOM),[user_text(c,user_fn('CONVERTED',vec))])
    return 'err',user_text(c,user_fn('CONVERSION_ERROR',vec))
def user_throws(c,a):
    c.st.trace.append(('serializer throws',a));raise ST.Thrown(len(c.st.trace))
specs_conv.USER[CUSTOM]=user_convert
def user_text_of(c,v):
    t=v.vs[0].txt
    if c.ex.throws and c.case(z3.Function('TEXT_THROWS?',Txt,BoolS)(t)): user_throws(c,(c.T(CUSTOM),v))
    return user_text(c,z3.Function('TEXT_OF',Txt,Txt)(t))
@contract(r'coil::TypeSerializer<user::Custom(?:, void)?>::fromString\(coil::Value const&\)')
def custom_from(c):
    E=c.T('coil::Expected<user::Custom, coil::String>');k,x=user_convert(c,c.rd(c.p(0),c.T('coil::Value')))
    c.ret(E,ExpV(E,True,x) if k=='ok' else ExpV(E,False,None,x))
@contract(r'coil::TypeSerializer<user::Custom(?:, void)?>::toString\(user::Custom const&\)')
def custom_to(c): c.ret(c.T(STR),user_text_of(c,c.rd(c.p(0),c.T(CUSTOM))))
def functor_called(c,name,p,args):
    """operator() of a user functor (at p)"""
    F=c.T(name);r=called(c,(name,(F,c.rd(p,F))),args,RETURNS[name])
    if name in STATEFUL: c.wr(p,F,outcome(c,F,'state after call %d'%len(c.st.trace)))
    return r
@contract(r'user::(Sum|Note|Get|Set)::operator\(\)\(.*\)( const)?')
def functor_op(c):
    n=c.scope;raw=[]
    for t,v in c.params: raw+=list(v) if isinstance(v,(list,tuple)) else [v]
    r=functor_called(c,n,c.this,take(c,ARGS[n],raw))
    if r is not None: c.ret(c.T(RETURNS[n]),r)
@contract(r'user::Sum::Sum\(user::Sum&&\)')
def sum_move(c):
    v=c.rd(c.p(0));c.init(c.this,c.clsT,v);c.wr(c.p(0),c.clsT,moved_sum(c,c.clsT))
def moved_sum(c,T_): return RecV(T_,[Ptr(OpaqueBase(z3.Int('moved from'),'void'),0,False)])
MOVED['user::Sum']=moved_sum
@contract(r'user::Sum::~Sum\(\)')
def sum_dtor(c):
    destroyed(c,c.clsT,c.rd(c.this));c.kill(c.this,c.clsT)
def destroyed(c,F,v):
    if F.name=='user::Sum' and not(isinstance(v.vs[0],Ptr) and v.vs[0].base is moved_sum(c,F).vs[0].base): c.st.trace.append(('destroyed',(F,v)))
# ---------------------------------------------------------------- from the call to the function
def by_value(c,i):
    v=pval(c,i);leave_moved(c,i);return v
def wrapper_args(c,name):
    """the parameter types of a FunctionWrapper"""
    return [norm(a) for a in targs(norm(name))]
def call_args(c,i0,types):
    """the function's parameters from i0 as the arguments of a call"""
    out=[]
    for k,t in enumerate(types):
        if bare(t)=='coil::Context': out.append(ctx_arg(specs_calls_ctx(c,i0+k)));continue
        T_=c.T(bare(t))
        if norm(t).endswith('&'): out.append((T_,c.rd(c.p(i0+k),T_)))
        else: out.append((T_,by_value(c,i0+k)))
    return out
def specs_calls_ctx(c,i):
    v=c.params[i][1];return v if isinstance(v,Ptr) else v.vs[0]
def wrapped(c,W,p,args):
    """the wrapper's function is called through it"""
    v=c.rd(p,W);fn=v.vs[[f[1] for f in W.fields].index('m_callFunc')].vs[0]
    return called(c,('call',fn,(W,v)),args,OS)
@contract(r'coil::detail::FunctionWrapper<.*>::invoke\(.*\)',**IN)
def fw_invoke(c):
    W=c.clsT;r=wrapped(c,W,c.this,call_args(c,0,wrapper_args(c,c.scope)));c.ret(c.T(OS),r)
def invoke_(c,W,p,ctx,es):
    """all arguments converted: one call with the converted values, and its result unless errors were reported; otherwise the errors, in order, and no call"""
    bad=[not c.case(e.ok) for e in es]
    if any(bad):
        for e,b in zip(es,bad):
            if b: report(c,ctx,copy_of(c,e.err))
        return
    types=wrapper_args(c,W.name);args=[];k=0
    for t in types:
        if bare(t)=='coil::Context': args.append(ctx_arg(ctx));continue
        T_=c.T(bare(t));v=es[k].val;k+=1
        if isinstance(v,RecV) and v.ty.name.startswith('coil::ReferenceWrapper<'):
            v=c.rd(v.vs[0],T_)
            if not norm(t).endswith('&'): v=deep_copy(c,T_,v)
        args.append((T_,v))
    r=wrapped(c,W,p,args);C_=c.T(CTX)
    if not c.case(lt(0,get(c,ctx,C_,'result','errors').l)): put(c,ctx,C_,r,'result','returnValue')
def few_errors(c,ctx,n):
    c.req(lt(add(get(c,ctx,c.T(CTX),'result','errors').l,n),specs_vec.BIG),'the number of errors is below the allocation limit')
def setup_refs(su):
    """converted arguments that refer to a value"""
    for nm,b,T_ in list(su.blocks):
        if T_.kind=='exp' and T_.Tt.name=='coil::ReferenceWrapper<coil::Value const>':
            su.st.w(b).cells[0][2].val=RecV(T_.Tt,[su.block(nm+'.value',su.ex.types.get('coil::Value'))])
@contract(r'void coil::detail::invoke<.*>\(coil::detail::FunctionWrapper<.*>&, coil::detail::CallContext&.*\)',setup=setup_refs,**IN)
def invoke_converted(c):
    W=c.T(pref(c.ptype(0)));ctx=c.p(1);es=[]
    for i in range(2,len(c.params)):
        es.append(by_value(c,i))
        c.req(Or(es[-1].ok,es[-1].err.ok),'the error has contents')
    few_errors(c,ctx,len(es));invoke_(c,W,c.p(0),ctx,es)
def unpack(c,W,p,ctx):
    C_=c.T(CTX);v=get(c,ctx,C_,'input','arguments');ut=user_types(wrapper_args(c,W.name))
    c.req(eq(v.l,len(ut)),'as many arguments as the function has parameters');few_errors(c,ctx,len(ut));es=[];aq,at_=at(c,ctx,C_,'input','arguments')
    for i,t in enumerate(ut):
        x=c.ex.sorts.fz(v.elT,sel(v.arr,i));c.fact(*c.ex.sorts.inv(v.elT,x));T_=c.T(t)
        if t=='coil::Value':
            E=c.T('coil::Expected<coil::ReferenceWrapper<coil::Value const>, coil::String>');es.append(ExpV(E,True,RecV(E.Tt,[specs_calls.el_ptr(c,aq,at_,i)])));continue
        E=c.T('coil::Expected<%s, coil::String>'%t)
        if T_.kind in('int','float'): errno_havoc(c)
        k,r=convert(c,t,x);es.append(ExpV(E,True,r) if k=='ok' else ExpV(E,False,None,r))
    invoke_(c,W,p,ctx,es)
@contract(r'void coil::detail::unpackAndInvoke<.*>\(coil::detail::FunctionWrapper<.*>&, coil::detail::CallContext&, .*\)',**IN)
def unpack_invoke(c): unpack(c,c.T(pref(c.ptype(0))),c.p(0),c.p(1))
@contract(r'coil::detail::AnyStorage<.*>::invoke\(coil::detail::CallContext&\)',**IN)
def storage_invoke(c):
    o,W=fld(c,c.clsT,'m_funcWrapper');unpack(c,W,c.h.canon(c.st,c.this.plus(o)),c.p(0))
@contract(r'void coil::detail::reportError<.*>\(coil::detail::CallContext&, coil::Expected<.*> const&\)',**IN)
def report_failed(c):
    e=c.rd(c.p(1),c.T(pref(c.ptype(1))));ctx=c.p(0)
    if c.case(e.ok): return
    c.req(e.err.ok,'the error has contents');few_errors(c,ctx,0);report(c,ctx,copy_of(c,e.err))
# ---------------------------------------------------------------- from the wrapper to the user's function
def text_of(c,t,v):
    """the text form of a returned value"""
    T_=c.T(t)
    if T_.kind=='bool': return message(c,[b'true']) if c.case(v) else message(c,[b'false'])
    if T_.kind in('int','float'): return number_text(c,T_,v)
    if T_.kind in('str','sv'): return copy_of(c,v,ok=True)
    if t=='coil::Value': return known(c,value_txt(c,v))
    if t==CUSTOM: return user_text_of(c,v)
    if T_.kind=='ptr':
        if c.case(v.null): return message(c,[b'null'])
        u=pref(t);return text_of(c,u,c.rd(Ptr(v.base,v.off),c.T(u)))
    raise Unsupported('text form of '+t)
def enclosing(F):
    """(name, template arguments, parameter types, parameter types of the lambda) of a library lambda"""
    m=re.match(r'(.*)::\{lambda\((.*)\)#\d+\}$',F);r,q,ps,_=EX.parse_sig(m.group(1));l=EX.qual_split(q)[1]
    return l.split('<')[0],last_targs(l),[norm(p) for p in ps or []],[norm(x) for x in split_targs('_<'+m.group(2)+'>') if x.strip()]
def is_lambda(F): return '{lambda(' in F and F.endswith('}')
def member_call(c,v,obj,args):
    """a bound member function (value v) is called on an object"""
    sg=v.ty.sig
    o=obj if val_of(v.vs[1])==0 else obj.plus(v.vs[1])
    return called(c,('call',v.vs[0],o),args,sg[0])
def ret_of(c,F,C):
    n=norm(F)
    if n in RETURNS: return RETURNS[n]
    if is_lambda(n):
        k,ta,ps,lp=enclosing(n)
        if k=='variable': return ta[0]
        if k=='property': return RETURNS[norm(ta[0])]
        if k=='bindProperty': return bare(c.T(ta[1]).sig[0])
        raise Unsupported('function '+n)
    return bare(c.T(n).sig[0])
READONLY={'variable':b'This variable is read-only','property':b'This property is read-only','bindProperty':b'This property is read-only'}
def readonly(k,ta,ps):
    return ps[0].endswith('const*') if k=='variable' else len(ps)==(1 if k=='property' else 2)
def run_functor(c,F,fp,obj,args):
    """what calling the functor of type F at fp does; the value it returns (None for void)"""
    n=norm(F);T_=c.T(n)
    if n in RETURNS: return functor_called(c,n,fp,args)
    v=c.rd(fp,T_)
    if not is_lambda(n):
        if getattr(T_,'memptr',False): return member_call(c,v,obj,args)
        return called(c,('call',v),args,T_.sig[0])
    k,ta,ps,lp=enclosing(n);cap=v.vs
    def of(t): return next(x for f,x in zip(T_.fields,cap) if f[2] is t)
    def pointer(): return next(x for f,x in zip(T_.fields,cap) if f[2].kind=='ptr' and not getattr(f[2],'sig',None))
    if args and readonly(k,ta,ps): report(c,args[0],message(c,[READONLY[k]]));few_errors(c,args[0],0);args=[]
    if k=='variable':
        X=c.T(ta[0]);p=pointer()
        if args: c.h.kill_texts(c.st,X,c.rd(p,X));c.wr(p,X,args[0][1])
        return c.rd(p,X)
    if k=='property':
        def place(t): return c.h.canon(c.st,fp.plus(next(f[0] for f in T_.fields if f[2] is c.T(t))))
        if args: functor_called(c,norm(ta[1]),place(ta[1]),args)
        return functor_called(c,norm(ta[0]),place(ta[0]),[])
    if k=='bindProperty':
        if args: member_call(c,of(c.T(ta[2])),pointer(),args)
        return member_call(c,of(c.T(ta[1])),pointer(),[])
    raise Unsupported('function '+n)
def holds(su,F,C='void',heap=False,name='functor'):
    """the wrapper under verification holds a function of type F (and an object of type C)"""
    tp=su.ex.types;T_=tp.get(norm(F));this=su.args[1 if su.sret is not None else 0]
    p=su.block(name,T_)
    if heap: p.base.kind='heap';p.base.how=''
    if is_lambda(norm(F)): captures(su,p,norm(F),T_)
    W=tp.get(su.thisT.name);c0=su.st.w(this.base).cells[0];v=c0[2];names=[f[1] for f in W.fields];vs=list(v.vs)
    vs[names.index('m_func')]=p
    if C!='void': vs[names.index('m_obj')]=Ptr(OpaqueBase(z3.Int(fresh_name('object')),bare(C)),0,False)
    su.st.w(this.base).cells[0]=(c0[0],c0[1],RecV(W,vs));return p
def captures(su,p,n,T_):
    k,ta,ps,lp=enclosing(n);c0=su.st.w(p.base).cells[0];vs=list(c0[2].vs)
    for i,f in enumerate(T_.fields):
        if f[2].kind=='ptr' and not getattr(f[2],'sig',None):
            vs[i]=su.block('variable',su.ex.types.get(ta[0])) if k=='variable' else Ptr(OpaqueBase(z3.Int(fresh_name('object')),bare(ta[0])),0,False)
    su.st.w(p.base).cells[0]=(c0[0],c0[1],RecV(T_,vs))
def fname(su): return last_targs(EX.qual_split(EX.parse_sig(re.sub(r'\(anonymous namespace\)::','',su.f.dem))[1])[1])
def setup_call(su): F,C=fname(su);holds(su,F,C)
@contract(r'coil::Optional<coil::String> coil::detail::FunctionWrapper<.*>::typedCall<.*>\(.*\)',setup=setup_call,**IN)
def typed_call(c):
    F,C=last_targs(c.last);v=c.rd(c.this);names=[f[1] for f in c.clsT.fields];O=c.T(OS)
    args=call_args(c,0,wrapper_args(c,c.scope));t=ret_of(c,F,C)
    r=run_functor(c,F,v.vs[names.index('m_func')],v.vs[names.index('m_obj')],args)
    if isinstance(r,Ptr) and c.T(t).kind!='ptr': r=c.rd(r,c.T(t))
    c.ret(O,OptV(O,False) if t=='void' else OptV(O,True,text_of(c,t,r)))
def setup_destroy(su):
    p=holds(su,fname(su)[0],heap=True);this=su.args[0];W=su.thisT;c0=su.st.w(this.base).cells[0];vs=list(c0[2].vs);i=[f[1] for f in W.fields].index('m_func')
    vs[i]=Ptr(p.base,0,z3.Bool('holds no function'));su.st.w(this.base).cells[0]=(c0[0],c0[1],RecV(W,vs))
@contract(r'void coil::detail::FunctionWrapper<.*>::typedDestroy<.*>\(\)',setup=setup_destroy,**IN)
def typed_destroy(c):
    W=c.clsT;v=c.rd(c.this);i=[f[1] for f in W.fields].index('m_func');p=v.vs[i];F=c.T(norm(last_targs(c.last)[0]));vs=list(v.vs)
    if c.case(p.null): c.st.ghost['kept']={p.base}
    else:
        destroyed(c,F,c.rd(Ptr(p.base,0),F));del c.st.mem[p.base]
        c.post.append(('the function is released',lambda st:p.base not in st.mem or not st.mem[p.base].live))
    vs[i]=NULL;c.wr(c.this,W,RecV(W,vs))
# ---------------------------------------------------------------- from a function to a functor
def sig_of(c,F):
    """(parameter types, return type) of a functor type"""
    n=norm(F)
    if n in ARGS: return ARGS[n],RETURNS[n]
    if is_lambda(n): return enclosing(n)[3],ret_of(c,n,'void')
    s=c.T(n).sig;return s[2],bare(s[0])
def wrapper_of(ptypes): return norm(FW+', '.join(ptypes)+'>')
def name_view(c,t):
    n=TYPE_NAMES.get(bare(re.sub(r'\*$','',t)))
    if n is None: raise Unsupported('name of '+t)
    p=c.ex.literal(c.st,n+b'\0');v=SVV(p.base.bid,0,len(n));v.bytext=True;return v
def goals_eq(c,st,T_,a,e):
    out=[];view_eq(c.ex,st,T_,a,e,'',out);return And(*[g for d,g in out])
def fidx(T_,n): return [f[1] for f in T_.fields].index(n)
def heap_at(st,p,what):
    """the new object a pointer refers to"""
    if not isinstance(p,Ptr) or not isinstance(p.base,ST.Block) or p.base.kind!='heap' or p.off!=0: return None
    return p
def target(c,v):
    """the demangled name of the member function a member pointer refers to"""
    p=v.vs[0]
    if not isinstance(p,Ptr) or not isinstance(p.base,FuncBase): return None
    return re.sub(r'\(anonymous namespace\)::','',c.ex.dem.get(p.base.name,p.base.name))
def member_targs(d):
    """(class, name, template arguments) of a member function template"""
    q=EX.parse_sig(d)[1];s,l=EX.qual_split(q);return norm(s),l.split('<')[0],[norm(x) for x in last_targs(l)] if '<' in l else []
def shape(c,st,W,v,check,C,obj):
    """goals: the wrapper (value v, type W) holds a function accepted by check(F,value), with the object obj, and calls and destroys it as such; F of the function"""
    g=[];keep=c.st.ghost.setdefault('kept',set())
    d=target(c,v.vs[fidx(W,'m_callFunc')])
    if d is None: return [('the function is called through a member of the wrapper',False)],None
    s,l,ta=member_targs(d)
    if l!='typedCall': raise Unsupported('wrapper calling '+d)
    F=ta[0];g.append(('calls the function through its own wrapper',s==norm(W.name) and ta[1]==norm(C)))
    d2=target(c,v.vs[fidx(W,'m_destroyFunc')])
    if d2 is not None and member_targs(d2)[1]!='typedDestroy': raise Unsupported('wrapper destroying by '+d2)
    g.append(('destroys the function as what it is',d2 is not None and member_targs(d2)==(norm(W.name),'typedDestroy',[F])))
    for i in('m_callFunc','m_destroyFunc'): g.append(('points at exactly that member',val_of(v.vs[fidx(W,i)].vs[1])==0))
    p=heap_at(st,v.vs[fidx(W,'m_func')],'function')
    if p is None: g.append(('the function is a new object',False));return g,F
    keep.add(p.base);g.append(('the function exists',And(Not(p.null),p.base in st.mem and st.mem[p.base].live)))
    T_=c.T(F)
    if p.base in st.mem and st.mem[p.base].live: g.append(('it is the given function',check(F,T_,c.h.read_obj(st,Ptr(p.base,0),T_))))
    o=v.vs[fidx(W,'m_obj')];g.append(('the object is the given one',o.null if obj is None else ptr_eq(c.ex,st,o,obj)))
    g.append(('the return type is named',goals_eq(c,st,c.T('coil::StringView'),v.vs[fidx(W,'returnType')],name_view(c,sig_of(c,F)[1]))))
    return g,F
def same_value(c,st,F0,f):
    return lambda F,T_,v:False if norm(F0)!=F else goals_eq(c,st,T_,v,f)
@contract(r'coil::detail::FunctionWrapper<.*>::FunctionWrapper<.*>\(.*\)',**IN)
def fw_ctor(c):
    F,C=last_targs(c.last);W=c.clsT;f=by_value(c,0);obj=c.p(1);c.init(c.this,W,UnspecV(W))
    c.post.append(('the wrapper holds the function',lambda st:conj(c,st,lambda y:shape(c,y,W,c.h.read_obj(y,c.this,W),same_value(c,y,F,f),C,obj)[0])))
def conj(c,st,f):
    y=st.clone();g=f(y)
    for d,x in g:
        if x is False: c.ex.oblige(y,False,'postcondition',d)
    return y,And(*[x for d,x in g])
@contract(r'coil::detail::FunctionWrapper<.*>::FunctionWrapper\(coil::detail::FunctionWrapper<.*>&&\)',**IN)
def fw_move(c):
    W=c.clsT;v=c.rd(c.p(0));c.init(c.this,W,v);c.wr(c.p(0),W,gone(W))
def gone(W): return RecV(W,[NULL if f[1]=='m_func' else UnspecV(f[2]) for f in W.fields])
@contract(r'coil::detail::FunctionWrapper<.*>::~FunctionWrapper\(\)',**IN)
def fw_dtor(c): destroy_known(c,c.clsT,c.this)
def vtable_goal(c,st,p,name):
    """the object at p is of the dynamic type named"""
    d=st.mem[p.base];o=c.h.find_cell(d,val_of(p.off),8)[0];v=d.cells[o][2]
    if not isinstance(v,Ptr) or not isinstance(v.base,GlobalBase): return False
    n=norm(re.sub(r'\(anonymous namespace\)::','',ir.demangle([v.base.name])[v.base.name]))
    return n==norm('vtable for '+name) and v.off==16
@contract(r'coil::detail::AnyStorageBase::(~?)AnyStorageBase\(\)',**IN)
def sb_ctor(c):
    c.init(c.this,c.clsT,UnspecV(c.clsT))
    if not c.m.group(1): c.post.append(('it is a storage',lambda st:vtable_goal(c,st,c.this,'coil::detail::AnyStorageBase')))
@contract(r'coil::detail::AnyStorage<(.*?) ?>::AnyStorage\(\1\)',**IN)
def st_ctor(c):
    W=c.T(c.m.group(1));p=c.params[0][1];v=c.rd(p,W);c.wr(p,W,gone(W));o=fld(c,c.clsT,'m_funcWrapper')[0]
    c.init(c.this,c.clsT,RecV(c.clsT,[v if f[1]=='m_funcWrapper' else UnspecV(f[2]) for f in c.clsT.fields]))
    c.post.append(('it is a storage of the wrapper',lambda st:vtable_goal(c,st,c.this,c.scope)))
def setup_dtor(su):
    if su.f.name.endswith('D0Ev'): b=su.args[0].base;b.kind='heap';b.how=''
@contract(r'coil::detail::AnyStorage<.*>::~AnyStorage\(\)',setup=setup_dtor,**IN)
def st_dtor(c):
    o,W=fld(c,c.clsT,'m_funcWrapper');destroy_known(c,W,c.h.canon(c.st,c.this.plus(o)))
    if c.name.endswith('D0Ev'):
        b=c.this.base;del c.st.mem[b];c.post.append(('the storage is released',lambda st:b not in st.mem or not st.mem[b].live))
    else: c.init(c.this,c.clsT,RecV(c.clsT,[gone(W) if f[1]=='m_funcWrapper' else UnspecV(f[2]) for f in c.clsT.fields]))
@contract(r'coil::Types<(.*)>::names\(\)',**IN)
def types_names(c):
    ts=[norm(x) for x in split_targs('_<'+c.m.group(1)+'>') if x.strip()];T_=c.T('coil::Vector<coil::StringView>');v=UnspecV(T_);c.ret(T_,v)
    p=c.sret;c.post.append(('the names of the types, in order',lambda st:conj(c,st,lambda y:names_goal(c,y,c.h.read_obj(y,p,T_),ts))))
def names_goal(c,st,v,ts):
    g=[('as many names as types',eq(v.l,len(ts)))]
    for i,t in enumerate(ts):
        x=c.ex.sorts.fz(v.elT,sel(v.arr,i));g.append(('name %d'%i,goals_eq(c,st,v.elT,x,name_view(c,t))))
    return g
def functor_shape(c,st,af,ptypes,wrapper):
    """goals: af is a functor of a function with these parameter types; wrapper(state, type, value) gives the goals about its wrapper"""
    A=c.T(AF);W=c.T(wrapper_of(ptypes));S='coil::detail::AnyStorage<'+W.name+'>';g=[]
    p=heap_at(st,af.vs[fidx(A,'m_storage')],'storage')
    if p is None or p.base not in st.mem or not st.mem[p.base].live: return [('the functor holds a new storage',False)]
    c.st.ghost.setdefault('kept',set()).add(p.base)
    g.append(('the functor has a storage',Not(p.null)));g.append(('the storage is of the wrapper',vtable_goal(c,st,p,S)))
    Sv=c.T(S);o,_=fld(c,Sv,'m_funcWrapper');v=c.h.read_obj(st,Ptr(p.base,o),W);g+=wrapper(st,W,v)
    g+=names_goal(c,st,af.vs[fidx(A,'m_parameterTypes')],user_types(ptypes))
    g.append(('the return type is that of the function',goals_eq(c,st,c.T('coil::StringView'),af.vs[fidx(A,'m_returnType')],v.vs[fidx(W,'returnType')])))
    return g
@contract(r'coil::AnyFunctor::AnyFunctor<(coil::detail::FunctionWrapper<.*>) ?>\(\1\)',**IN)
def af_ctor(c):
    W=c.T(c.m.group(1));p=c.params[0][1];v=c.rd(p,W);c.wr(p,W,gone(W));A=c.clsT;c.init(c.this,A,UnspecV(A))
    c.post.append(('the functor holds the wrapper',lambda st:conj(c,st,lambda y:functor_shape(c,y,c.h.read_obj(y,c.this,A),wrapper_args(c,W.name),lambda y,W_,w:[('it is the given wrapper',goals_eq(c,y,W_,w,v))]))))
def returns_functor(c,F,f,C,obj):
    """the result is one functor of the given function"""
    A=c.T(AF);c.ret(A,UnspecV(A));p=c.sret
    c.post.append(('the functor holds the function',lambda st:conj(c,st,lambda y:functor_shape(c,y,c.h.read_obj(y,p,A),[norm(x) for x in sig_of(c,F)[0]],lambda y,W,v:shape(c,y,W,v,same_value(c,y,F,f),C,obj)[0]))))
@contract(r'coil::AnyFunctor coil::detail::createAnyFunctor<.*>\(.*\)',**IN)
def create_functor(c): returns_functor(c,last_targs(c.last)[0],by_value(c,0),'void',None)
@contract(r'coil::detail::createAnyFunctor\(coil::AnyFunctor\)',**IN)
def same_functor(c): c.ret(c.T(AF),by_value(c,0))
@contract(r'coil::AnyFunctor coil::bind<.*>\(.*\)',**IN)
def bind_(c):
    F,C=last_targs(c.last);returns_functor(c,F,by_value(c,0),C,c.p(1))
def vec_result(c,n,each):
    """the result is a vector of n functors; each(state, index, functor) gives goals"""
    V=c.T('coil::Vector<coil::AnyFunctor>');c.ret(V,UnspecV(V));p=c.sret
    def f(y):
        v=c.h.read_obj(y,p,V);g=[('the number of functors',eq(v.l,n))]
        if val_of(v.l)!=n: return [('the number of functors',False)]
        for i in range(n): g+=each(y,i,c.ex.sorts.fz(v.elT,sel(v.arr,i)))
        return g
    c.post.append(('the functors hold the functions',lambda st:conj(c,st,f)))
@contract(r'coil::Vector<coil::AnyFunctor> coil::overloaded<.*>\(.*\)',**IN)
def overloaded_(c):
    Fs=last_targs(c.last);fs=[by_value(c,i) for i in range(len(Fs))]
    def each(y,i,af):
        if norm(Fs[i])==AF: return [('it is the given functor',goals_eq(c,y,c.T(AF),af,fs[i]))]
        return functor_shape(c,y,af,[norm(x) for x in sig_of(c,Fs[i])[0]],lambda y,W,v:shape(c,y,W,v,same_value(c,y,Fs[i],fs[i]),'void',None)[0])
    vec_result(c,len(Fs),each)
@contract(r'(?:coil::Vector<coil::AnyFunctor>|auto) coil::(variable|property|bindProperty)<.*>\(.*\)',**IN)
def accessors(c):
    k=c.m.group(1);ta=last_targs(c.last);ps=[norm(t) for t,_ in c.params];vals=[by_value(c,i) for i in range(len(ps))]
    here=norm(EX.parse_sig(re.sub(r'\(anonymous namespace\)::','',c.ex.dem[c.name]))[1]+'('+', '.join(t for t,_ in c.params)+')')
    val=ta[0] if k=='variable' else RETURNS[norm(ta[0])] if k=='property' else bare(c.T(ta[1]).sig[0])
    ro=readonly(k,ta,ps)
    def each(y,i,af):
        A=c.T(AF);p=heap_at(y,af.vs[fidx(A,'m_storage')],'storage')
        if p is None or p.base not in y.mem or not y.mem[p.base].live: return [('the functor holds a new storage',False)]
        # the wrapper type is read off the storage
        v=y.mem[p.base].cells[0][2] if 0 in y.mem[p.base].cells else None
        if not isinstance(v,Ptr) or not isinstance(v.base,GlobalBase): return [('the functor holds a storage',False)]
        m=re.fullmatch(r'vtable for coil::detail::AnyStorage<(coil::detail::FunctionWrapper<.*>)>',norm(ir.demangle([v.base.name])[v.base.name]))
        if not m: raise Unsupported('storage '+v.base.name)
        ptypes=wrapper_args(c,m.group(1));ut=user_types(ptypes);want=[] if i==0 else ['coil::Value' if ro and k=='property' else val]
        if ut!=want: return [('the functors take %s: %s'%(want,ut),False)]
        def check(F,T_,fv):
            if not is_lambda(F) or not F.startswith(here+'::'): raise Unsupported('function '+F)
            got=list(zip([f[2] for f in T_.fields],fv.vs));g=[]
            for t,pv in zip(ps,vals):
                for ft,x in got:
                    if ft is c.T(t): g.append(goals_eq(c,y,ft,x,pv))
                    elif isinstance(pv,Ptr) and ft.kind=='ptr' and not getattr(ft,'sig',None) and not getattr(c.T(t),'sig',None): g.append(ptr_eq(c.ex,y,x,pv))
            return And(*g)
        return functor_shape(c,y,af,ptypes,lambda y,W,v:shape(c,y,W,v,check,'void',None)[0])
    vec_result(c,2,each)
# ---------------------------------------------------------------- registering a function
def register(c,B,name,F,f):
    """one functor of the function is registered under the name"""
    el=c.T(AF);n=fresh_int('cap');A=z3.Const(fresh_name('fw'),z3.ArraySort(IntS,c.ex.sorts.sort(el)));fs=VecV(el,1,n,A)
    r=specs_reg.add_(c,B,name,fs,True)
    def witness(st):
        a=st.ghost.get('added')
        if a is None: c.ex.oblige(st,False,'postcondition','the function is registered');raise Infeasible()
        c.ex.oblige(st,eq(a.l,1),'postcondition','one functor is registered');st.assume(eq(n,a.cap));st.assume(A==a.arr)
    c.pre.append(witness)
    def goals(st):
        af=c.ex.sorts.fz(el,sel(st.ghost['added'].arr,0))
        return functor_shape(c,st,af,[norm(x) for x in sig_of(c,F)[0]],lambda y,W,v:shape(c,y,W,v,same_value(c,y,F,f),'void',None)[0])
    c.post.append(('the registered functor holds the function',lambda st:conj(c,st,goals)));return r
@contract(r'coil::Bindings::Command const& coil::Bindings::add<.*>\(coil::StringView, .*\)',**IN)
def add_function(c): f=by_value(c,1);c.ret(c.T('void*'),register(c,c.this,c.p(0),last_targs(c.last)[0],f))
@contract(r'coil::BindingProxy& coil::BindingProxy::operator=<.*>\(.*\)',**IN)
def assign_function(c):
    f=by_value(c,0);x=c.rd(c.this);register(c,x.vs[0],x.vs[1],last_targs(c.last)[0],f);c.ret(c.T('void*'),c.this)
