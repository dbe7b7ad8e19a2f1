"""Contracts: models run at call sites (requirements become obligations) and, when the function itself is verified, to
compute the expected final state (requirements become assumptions)."""
import re,time,os
from core import *
from state import *
import exec as EX
import ext
import ir
import z3

class Contract:
    def __init__(s,pat,fn,**o):
        s.pat=re.compile(pat);s.fn=fn;s.o=o;s.name=fn.__name__
class Registry:
    def __init__(s): s.list=[];s.loops=[]
    def find(s,dem,name):
        d=re.sub(r'\(anonymous namespace\)::','',dem)
        for c in s.list:
            if c.pat.fullmatch(d): return c
        return None
REG=Registry()
def contract(pat,**o):
    def d(fn):
        REG.list.append(Contract(pat,fn,**o));return fn
    return d

EMPTY=('coil::IntegerSequence<','coil::Types<')     # classes without members: not passed at all
def cpp_params(ex,name,tys,ats,args):
    """splits the IR arguments: (sret, this, [(cpp type, value)])"""
    dem=ex.dem.get(name,name)
    ret,q,ptypes,const=EX.parse_sig(re.sub(r'\(anonymous namespace\)::','',dem))
    f=ex.funcs.get(name) or ex.decls.get(name)
    i=0;sret=None;this=None
    if 'sret' in ats[0] if ats else False: sret=args[0];i=1
    names=[p[2] for p in f.params]
    scope,last=EX.qual_split(q)
    is_m=False
    if f.name in ex.funcs: is_m=len(names)>i and names[i]=='this'
    else: is_m=len(args)-i>len(ptypes or [])
    if is_m: this=args[i];i+=1
    out=[]
    for pt in (ptypes or []):
        if pt=='...': out.append((pt,args[i:]));break
        if norm_t(pt).startswith(EMPTY): continue
        k=1
        nm=names[i] if i<len(names) else ''
        at=(ats[i] if ats and i<len(ats) else None) or (f.params[i][1] if i<len(f.params) else None) or {}
        if 'byval' in at: out.append((pt,args[i]));i+=1;continue
        if nm.endswith('coerce0') or (norm_t(pt) in VIEWS and not nm.endswith('coerce')):
            out.append((pt,args[i:i+2]));i+=2;continue
        if i>=len(args): break
        out.append((pt,args[i]));i+=1
    return dict(sret=sret,this=this,params=out,scope=scope,last=last,ret=ret,const=const,q=q)
from cxxtypes import norm as norm_t
VIEWS=('coil::StringView','std::string_view')
def ptr_len(T_,vs):
    return (vs[0],vs[1]) if T_.po==0 else (vs[1],vs[0])

class Call:
    def __init__(c,ex,st,con,name,args,tys,ats,mode):
        c.ex=ex;c.st=st;c.con=con;c.name=name;c.args=args;c.mode=mode;c.h=ex.h;c.tys=tys
        if name=='indirect:':
            c.sret=None;c.this=None;c.params=[];c.scope='';c.last='';c.rettype=None;a=list(args)
            if ats and 'sret' in (ats[0] or {}): c.sret=a.pop(0)
            c.raw=a
        elif name.startswith('virtual:'):
            c.sret=None;c.this=args[0];c.params=[('?',x) for x in args[1:]];c.scope=name.split(':')[1];c.retT=None
            if 'sret' in (ats[0] or {}): c.sret=args[0];c.this=args[1];c.params=[('?',x) for x in args[2:]]
            c.last=''
        else:
            i=cpp_params(ex,name,tys,ats,args)
            c.sret=i['sret'];c.this=i['this'];c.params=i['params'];c.scope=i['scope'];c.last=i['last'];c.rettype=i['ret']
        c.retv=None;c.retT=None;c.post=[];c.pre=[];c.thrown=None
        m=con.pat.fullmatch(re.sub(r'\(anonymous namespace\)::','',ex.dem.get(name,name)))
        c.m=m
    def T(c,n): return c.ex.types.get(n)
    @property
    def clsT(c): return c.T(c.scope)
    def p(c,i):
        t,v=c.params[i]
        if norm_t(t) in VIEWS and isinstance(v,(list,tuple)): return c.h.mk_view(c.st,*ptr_len(c.T(t),v))
        if norm_t(t) in VIEWS and isinstance(v,Ptr): return c.rd(v,c.T(t))
        return v
    def ptype(c,i): return norm_t(c.params[i][0])
    def rd(c,p,T=None):
        return c.h.read_obj(c.st,p,T or c.clsT)
    def wr(c,p,T,v): c.h.write_obj(c.st,p,T,v)
    def init(c,p,T,v): c.h.write_obj(c.st,p,T,v,construct=True)
    def kill(c,p,T): return c.h.destroy(c.st,p,T)
    def req(c,cond,msg='precondition'):
        if c.mode=='call': c.ex.oblige(c.st,cond,'precondition','%s: %s'%(c.con.name,msg))
        else: c.st.assume(cond)
    def fact(c,*cs): c.st.assume(*cs)
    def case(c,cond): return c.h.decide(c.st,cond)
    def ret(c,T,v): c.retT=T;c.retv=v
    def text(c,l,arr=None,txt=None,ok=True):
        """a fresh text of length l with the given contents"""
        k=fresh_id();st=c.st
        st.assume(lt(l,BSZ(z3.IntVal(k))),lt(BSZ(z3.IntVal(k)),MAXLEN),eq(z3.Select(CH(z3.IntVal(k)),zi(l)),0),le(0,l))
        v=StrV(k,l,ok)
        if arr is not None: 
            j=z3.Int('tj')
            if callable(arr):
                st.assume(z3.ForAll([j],z3.Implies(z3.And(0<=j,j<zi(l)),z3.Select(CH(z3.IntVal(k)),j)==arr(j)),patterns=[z3.Select(CH(z3.IntVal(k)),j)]))
            else:
                st.assume(z3.ForAll([j],z3.Implies(z3.And(0<=j,j<zi(l)),z3.Select(CH(z3.IntVal(k)),j)==z3.Select(arr,j)),patterns=[z3.Select(CH(z3.IntVal(k)),j)]))
        if txt is not None: st.assume(v.txt==txt)
        return v
    def run(c):
        try: c.con.fn(c)
        except Thrown as t:
            if c.mode!='spec': raise
            c.thrown=t.n;c.retT=None
        if c.mode=='spec': return None
        # call mode: return value
        if c.retT is None: return None
        if c.sret is not None:
            c.h.write_obj(c.st,c.sret,c.retT,c.retv,construct=True);return None
        return to_ir(c.ex,c.st,c.retT,c.retv)
def to_ir(ex,st,T,v):
    k=T.kind
    if k in('int','bool','ptr','float'): return v
    if k=='sv': return Agg(ptr_len(T,[ex.h.canon(st,Ptr(TextBase(v.b),v.o)),v.l]))
    if k=='rec':
        if len(T.fields)==1: return to_ir(ex,st,T.fields[0][2],v.vs[0])
        return Agg([to_ir(ex,st,f[2],x) for f,x in zip(T.fields,v.vs)])
    raise Unsupported('return by value of '+T.name)
def from_ir(ex,st,T,v):
    k=T.kind
    if k=='bool': return i2b(v) if not (isinstance(v,bool) or (isz(v) and z3.is_bool(v))) else v
    if k in('int','ptr','float'): return v
    if k=='sv': return ex.h.mk_view(st,*ptr_len(T,v.vs))
    if k=='rec':
        if len(T.fields)==1: return RecV(T,[from_ir(ex,st,T.fields[0][2],v)])
        if isinstance(v,Agg): return RecV(T,[from_ir(ex,st,f[2],x) for f,x in zip(T.fields,v.vs)])
    raise Unsupported('returned value of type '+T.name)

# ---------------------------------------------------------------- equality of abstract values
def teq(ex,st,a,b):
    """facts tying the equality of two texts to their bytes; returns the equality"""
    (b1,o1,l1),(b2,o2,l2)=rng(a),rng(b)
    A,B=CH(zi(b1)),CH(zi(b2));w=fresh_int('w');j=z3.Int('qj')
    e=(a.txt==b.txt)
    if a.txt.eq(b.txt): return True
    st.assume(Implies(e,eq(l1,l2)),
      Implies(e,z3.ForAll([j],z3.Implies(z3.And(j>=zi(o1),j<zi(add(o1,l1))),z3.Select(A,j)==z3.Select(B,j+zi(sub(o2,o1)))),patterns=[z3.Select(A,j)])),
      Implies(e,z3.ForAll([j],z3.Implies(z3.And(j>=zi(o2),j<zi(add(o2,l2))),z3.Select(B,j)==z3.Select(A,j+zi(sub(o1,o2)))),patterns=[z3.Select(B,j)])),
      Implies(And(Not(e),eq(l1,l2)),And(le(0,w),lt(w,l1),ne(z3.Select(A,zi(add(o1,w))),z3.Select(B,zi(add(o2,w)))))))
    return e
def rng(v):
    if isinstance(v,SVV): return v.b,v.o,v.l
    return v.b,0,v.l
def view_eq(ex,st,T,a,e,path,out,cond=True):
    """goals for actual a == expected e (abstract view equality)"""
    if isinstance(e,UnspecV) or e is a: return
    if isinstance(a,UnspecV): 
        a=ex.sorts.const(T,'unspec')
    k=T.kind
    if k=='int': out.append((path,Implies(cond,eq(a,e))));return
    if k=='bool': out.append((path,Implies(cond,eq(a,e))));return
    if k=='ptr':
        out.append((path,Implies(cond,ptr_eq(ex,st,a,e))));return
    if k=='sv':
        if getattr(e,'bytext',False): return text_goal(ex,st,a,e,path,out,cond)
        out.append((path,Implies(cond,And(eq(a.b,e.b),eq(a.o,e.o),eq(a.l,e.l)))));return
    if k=='str':
        if getattr(e,'ghost_text',False) and isz(a.txt): st.assume(z3.Implies(zb(cond),TLEN(a.txt)==zi(a.l)))
        out.append((path+' length',Implies(cond,eq(a.l,e.l))))
        if e.ok is not None: out.append((path+' constructed',Implies(cond,eq(a.ok,e.ok))))
        text_goal(ex,st,a,e,path,out,cond,True);return
    if k=='vec':
        mask=getattr(e,'mask',())
        if not getattr(e,'anysize',False): out.append((path+' size',Implies(cond,eq(a.l,e.l))))
        if '*' in mask: return
        if a.arr is e.arr or (isz(a.arr) and isz(e.arr) and a.arr.eq(e.arr)): return
        j=fresh_int('el');el=a.elT
        x=ex.sorts.fz(el,sel(a.arr,j));y=ex.sorts.fz(el,sel(e.arr,j))
        c2=And(cond,le(0,j),lt(j,e.l))
        st.assume(*[Implies(c2,z) for z in ex.sorts.inv(el,x)+ex.sorts.inv(el,y)])
        if mask:
            # some members of the elements are not prescribed
            eqs=[]
            def hide(T_,p,q,path):
                if '.'.join(path) in mask: return UnspecV(T_)
                if any(m.startswith('.'.join(path)+'.' if path else '') for m in mask) and T_.kind=='rec':
                    return RecV(T_,[hide(f[2],a_,b_,path+(f[1],)) for f,a_,b_ in zip(T_.fields,p.vs,q.vs)])
                eqs.append(ex.sorts.tz(T_,p)==ex.sorts.tz(T_,q));return q
            y=hide(el,x,y,());strong=And(*eqs)
            if ex.h.prove(st,Implies(c2,strong),12000): out.append((path+'[i]',Implies(c2,strong)));return
        view_eq(ex,st,el,x,y,path+'[i]',out,c2);return
    if k=='rec':
        for f,x,y in zip(T.fields,a.vs,e.vs): view_eq(ex,st,f[2],x,y,path+'.'+f[1],out,cond)
        return
    if k=='exp':
        out.append((path+' has value',Implies(cond,eq(a.ok,e.ok))))
        if e.ok is not False and a.ok is not False and e.val is not None and a.val is not None: view_eq(ex,st,T.Tt,a.val,e.val,path+'.value',out,And(cond,e.ok))
        if e.ok is not True and a.ok is not True and e.err is not None and a.err is not None: view_eq(ex,st,T.Et,a.err,e.err,path+'.error',out,And(cond,Not(e.ok)))
        return
    if k=='opt':
        out.append((path+' has value',Implies(cond,eq(a.has,e.has))))
        if e.has is not False and a.has is not False and e.val is not None and a.val is not None: view_eq(ex,st,T.Tt,a.val,e.val,path+'.value',out,And(cond,e.has))
        return
    if k=='map':
        out.append((path,Implies(cond,And(a.dom==e.dom,eq(a.n,e.n)))))
        t=z3.Const(fresh_name('key'),Txt)
        x=ex.sorts.fz(T.Vt,z3.Select(a.val,t));y=ex.sorts.fz(T.Vt,z3.Select(e.val,t))
        view_eq(ex,st,T.Vt,x,y,path+'[key]',out,And(cond,z3.Select(e.dom,t)));return
    if k=='float': out.append((path,Implies(cond,a.t==e.t)));return
    raise Unsupported('comparison of '+T.name)
def ptr_eq(ex,st,a,e):
    if isinstance(a.base,VecBase) and isinstance(e.base,VecBase) and a.base is not e.base and a.base.elT is e.base.elT and a.base.owner.base is e.base.owner.base and eq(a.base.owner.off,e.base.owner.off) is True:
        # an element of the same vector (reallocated meanwhile): the actual pointer is a current one
        if a.base.epoch!=epoch_of(st,a.base.owner): return False
        return And(eq(a.null,e.null),eq(a.off,e.off))
    if a.base is None or e.base is None: return And(a.null,e.null) if not(a.base is None and e.base is None) else True
    return ex.pcmp(st,'eq',a,e)
def text_goal(ex,st,a,e,path,out,cond,skiplen=False):
    (b1,o1,l1),(b2,o2,l2)=rng(a),rng(e)
    if not skiplen: out.append((path+' length',Implies(cond,eq(l1,l2))))
    if getattr(e,'_t',None) is not None:
        out.append((path+' text',Implies(cond,a.txt==e._t)));return
    if isz(b1) and isz(b2) and b1.eq(b2) and o1==0 and o2==0: return
    if isinstance(b1,int) and isinstance(b2,int) and b1==b2 and o1==0 and o2==0: return
    j=fresh_int('ch')
    if getattr(e,'prefix',None) is not None: cond=And(cond,lt(j,e.prefix))
    g=Implies(And(cond,le(0,j),lt(j,l2)),eq(z3.Select(CH(zi(b1)),zi(add(o1,j))),z3.Select(CH(zi(b2)),zi(add(o2,j)))))
    out.append((path+' bytes',Or(a.txt==e.txt,g)))

# ---------------------------------------------------------------- verification of one function
VAARGS=z3.Int('va_args')      # the variable arguments of the function under verification
POINTEE={'coil::NamedArgs':('m_context','coil::detail::CallContext'),'coil::Context':('m_callContext','coil::detail::CallContext'),'coil::BindingProxy':('m_bindings','coil::Bindings')}
class Setup:
    """symbolic arguments of the function"""
    def __init__(s,ex,f,con,alias):
        s.ex=ex;st=s.st=State(ex);st.ghost['base']=1
        s.blocks=[];s.args=[];s.uninit=None;s.views=[];s.owned=[]
        dem=re.sub(r'\(anonymous namespace\)::','',f.dem)
        ret,q,ptypes,const=EX.parse_sig(dem)
        scope,last=EX.qual_split(q)
        names=[p[2] for p in f.params];i=0;s.byname={}
        s.sret=None;s.f=f;s.con=con
        if f.params and 'sret' in f.params[0][1]:
            b=st.new_block('result','param',ex.sz(f.params[0][1]['sret'],f.mod));s.sret=Ptr(b,0);s.args.append(s.sret);i=1
        cls=last.split('<')[0]
        base=EX.qual_split(scope)[1].split('<')[0] if scope else ''
        s.ctor=scope and cls==base
        s.thisT=None
        if i<len(names) and names[i]=='this':
            T_=ex.types.get(scope) if not con.o.get('this') else ex.types.get(con.o['this'])
            s.thisT=T_
            s.args.append(s.block('this',T_,init=not s.ctor));i+=1
        k=0
        for pt in ptypes or []:
            if pt=='...': break
            if norm_t(pt).startswith(EMPTY): continue
            s.args+=s.param('p%d'%k,pt,f,i,alias,con);k+=1
            i=len(s.args)
        if con.o.get('setup'): con.o['setup'](s)
        # texts owned by different objects differ; views into them only in the alias variants
        for i,a in enumerate(s.owned):
            for b in s.owned[i+1:]: st.assume(ne(a,b))
            for b in s.views: st.assume(ne(a,b))
    def block(s,name,T_,init=True):
        st=s.st
        if T_.kind=='opaque':
            return Ptr(OpaqueBase(z3.Int(fresh_name(name)),T_.name),0)
        b=st.new_block(name,'param',T_.size)
        s.blocks.append((name,b,T_))
        if init:
            v=s.ex.sorts.const(T_,name);s.fill(name,T_,v)
            if T_.kind=='str': v.ok=True
            st.w(b).cells[0]=(T_.size,T_,v)
            st.assume(*s.ex.sorts.inv(T_,v))
        return Ptr(b,0)
    def fill(s,name,T_,v):
        """input texts get ids of their own range; reference members get their objects"""
        for t in texts(s.ex,T_,v): s.st.assume(lt(0,t),lt(t,INPUT_ID_MAX))
        own=owned_texts(s.ex,T_,v);s.owned+=own
        for f in elem_inputs(s.ex,T_,v,()): s.st.assume(f)
        s.views+=[t for t in texts(s.ex,T_,v) if not any(t.eq(o) for o in own)]
        if T_.kind=='rec' and T_.name in POINTEE:
            fn,tn=POINTEE[T_.name]
            for i,f in enumerate(T_.fields):
                if f[1]==fn: v.vs[i]=s.block(name+'.'+fn,s.ex.types.get(tn))
    def param(s,name,pt,f,i,alias,con):
        ex=s.ex;st=s.st;n=norm_t(pt)
        pname=f.params[i][2]
        if n not in alias and n.replace('const','').strip() in alias: n=n.replace('const','').strip()
        if n in alias: return [alias[n] if not callable(alias[n]) else alias[n](s)]
        if n.endswith(('&','*')) or n.endswith('*const'):
            to=re.sub(r'(\*const|&&|[*&])$','',n).strip();to=re.sub(r'\s*\bconst$','',to).strip()
            if to=='char' and n.endswith('*'):
                b=z3.Int(fresh_name(name+'.b'));o=z3.Int(fresh_name(name+'.o'))
                st.assume(lt(0,b),lt(b,INPUT_ID_MAX),le(0,o),le(o,BSZ(b)),lt(BSZ(b),MAXLEN))
                s.views.append(b)
                return [Ptr(TextBase(b),o,con.o.get('nullable',False))]
            if to=='__va_list_tag':
                b=st.new_block(name,'param',24);st.ghost[('va',b,0)]=VAARGS;return [Ptr(b,0)]
            if to=='void' or n.endswith('*') and to.startswith('user::'):
                t=z3.Int(fresh_name(name));st.assume(le(0,t));return [Ptr(OpaqueBase(t,to),0,eq(t,0) if to=='void' else False)]
            if (name,) in alias: return [alias[(name,)](s) if callable(alias[(name,)]) else alias[(name,)]]
            if ('same',name) in alias: return [s.args[alias[('same',name)]]]
            T_=ex.types.get(to)
            if T_.kind=='opaque' and n.endswith('*'): return [Ptr(OpaqueBase(z3.Int(fresh_name(name)),to),0)]
            if T_.kind=='ptr' and con.o.get('deepptr'):
                pt_=s.ex.types.get(re.sub(r'\s*\bconst$','',re.sub(r'\*(const)?$','',to.replace(' const','') if to.endswith('* const') else to)).strip())
                q=s.block(name+'.to',pt_);b=st.new_block(name,'param',8);st.w(b).cells[0]=(8,T_,Ptr(q.base,0,z3.Bool(fresh_name(name+'.null'))))
                s.blocks.append((name,b,T_));return [Ptr(b,0)]
            return [s.block(name,T_,init=name not in con.o.get('uninit',()))]
        T_=ex.types.get(n)
        if T_.kind=='ptr' and getattr(T_,'sig',None): return [ex.sorts.const(T_,name).vs[0] if T_.kind=='rec' else ex.sorts.const(T_,name)]
        if T_.kind=='rec' and re.search(r'coerce\d?$',pname) and (getattr(T_,'memptr',False) or T_.name.startswith('user::') or '{lambda' in T_.name):
            v=ex.sorts.const(T_,name);st.assume(*ex.sorts.inv(T_,v));b=st.new_block(name,'stack',T_.size);st.w(b).cells[0]=(T_.size,T_,v);out=[];o=0
            for q in f.params[i:i+(2 if pname.endswith('coerce0') else 1)]:
                z=ex.sz(q[0],f.mod);out.append(ex.h.load(st,Ptr(b,o),q[0],z));o+=8
            del st.mem[b];return out
        if T_.kind=='sv':
            v=ex.sorts.const(T_,name);st.assume(*ex.sorts.inv(T_,v));st.assume(lt(v.b,INPUT_ID_MAX));s.views.append(v.b)
            if pname.endswith('coerce0'): return list(ptr_len(T_,[Ptr(TextBase(v.b),v.o),v.l]))
            b=st.new_block(name,'param',16);st.w(b).cells[0]=(16,T_,v);return [Ptr(b,0)]
        if T_.kind=='int':
            v=ex.sorts.const(T_,name);st.assume(*ex.sorts.inv(T_,v));return [v]
        if T_.kind=='bool': return [ex.sorts.const(T_,name)]
        if T_.kind=='float': return [ex.sorts.const(T_,name)]
        if f.params[i][0].k=='ptr' and not pname.endswith('coerce'):
            return [s.block(name,T_)]
        if T_.kind=='rec' and T_.size==8 and len(T_.fields)==1 and pname.endswith('coerce'):
            ft=T_.fields[0][2]
            v=ex.sorts.const(T_,name)
            if T_.name in POINTEE: return [s.block(name+'.ref',ex.types.get(POINTEE[T_.name][1]))]
            return [v.vs[0]]
        if f.params[i][0].k=='i': # enum or small struct
            v=z3.Int(fresh_name(name));st.assume(le(0,v),lt(v,1<<f.params[i][0].w));return [v]
        raise Unsupported('parameter of type '+pt)
def owned_texts(ex,T_,v):
    if v is None or isinstance(v,UnspecV): return []
    if T_.kind=='str': return [v.b] if isz(v.b) else []
    if T_.kind=='rec': return [t for f,x in zip(T_.fields,v.vs) for t in owned_texts(ex,f[2],x)]
    if T_.kind=='exp': return owned_texts(ex,T_.Tt,v.val)+owned_texts(ex,T_.Et,v.err)
    if T_.kind=='opt': return owned_texts(ex,T_.Tt,v.val)
    return []
def elem_inputs(ex,T_,v,vars_):
    """the texts of the elements of input containers are input texts too"""
    if v is None or isinstance(v,UnspecV): return []
    k=T_.kind
    if k=='rec': return [y for f,x in zip(T_.fields,v.vs) for y in elem_inputs(ex,f[2],x,vars_)]
    if k=='exp': return elem_inputs(ex,T_.Tt,v.val,vars_)+elem_inputs(ex,T_.Et,v.err,vars_)
    if k=='opt': return elem_inputs(ex,T_.Tt,v.val,vars_)
    if k=='vec' and len(vars_)<2:
        el=ex.types.el(T_);j=z3.Int(fresh_name('ij'));t=z3.Select(v.arr,j);x=ex.sorts.fz(el,t)
        rg=vars_+((j,z3.And(j>=0,j<zi(v.l))),);out=[]
        ts=texts(ex,el,x) if el.kind in('sv','str','rec') else []
        if ts: out.append(z3.ForAll([q for q,_ in rg],z3.Implies(z3.And(*[r for _,r in rg]),z3.And(*[z3.And(b>0,b<INPUT_ID_MAX) for b in ts])),patterns=[t]))
        return out+elem_inputs(ex,el,x,rg)
    return []
def texts(ex,T_,v):
    if v is None or isinstance(v,UnspecV): return []
    if T_.kind in('sv','str'): return [v.b] if isz(v.b) else []
    if T_.kind=='rec': return [t for f,x in zip(T_.fields,v.vs) for t in texts(ex,f[2],x)]
    if T_.kind=='exp': return texts(ex,T_.Tt,v.val)+texts(ex,T_.Et,v.err)
    if T_.kind=='opt': return texts(ex,T_.Tt,v.val)
    return []

def verify(ex,name,con,budget=100):
    f=ex.funcs[name];t0=time.time()
    r=dict(function=f.dem,contract=con.name,paths=0,spec_cases=0)
    ex.terminates=con.o.get('terminates',False)
    ex.obls=[];ex.failures=[];ex.top=f.dem;ex.t_end=t0+budget;ex.budget=budget
    inl=con.o.get('inline')
    if inl:
        rx=re.compile(inl);ex.force_inline=lambda n:bool(rx.fullmatch(re.sub(r'\(anonymous namespace\)::','',ex.dem.get(n,n))))
    else: ex.force_inline=None
    try:
        variants=([] if con.o.get('onlyalias') else [{}])+list(con.o.get('alias',[]))
        sc=EX.qual_split(EX.parse_sig(re.sub(r'\(anonymous namespace\)::','',f.dem))[1])[0]
        ex.heap_el=ex.types.el(ex.types.get(sc)) if sc.startswith('coil::Vector<') and ex.types.get(sc).kind=='vec' else None
        for al in variants:
            verify_variant(ex,f,name,con,al,r)
        if r['paths']==0: raise Unsupported('vacuous: no path returns')
        if not r.get('reached'): raise Unsupported('vacuous: every returning path has contradictory facts')
        r['status']='failed' if ex.failures else 'proved'
    except EX.Enough: r['status']='failed'      # several obligations failed: the rest is not looked at
    except Timeout_ as e:
        r['status']='undecided';r['why']=str(e)
    except (Unsupported,) as e:
        r['status']='failed' if ex.failures and False else 'undecided';r['why']=str(e)
    except RecursionError: r['status']='undecided';r['why']='recursion'
    except (KeyError,AttributeError,IndexError,TypeError,AssertionError,z3.Z3Exception,ValueError) as e:
        import traceback
        r['status']='undecided';r['why']='internal: %r'%e;r['tb']=traceback.format_exc()[-1500:]
    r['obligations']=len(ex.obls);r['discharged']=sum(1 for o in ex.obls if o['ok'])
    r['failures']=ex.failures;r['t']=round(time.time()-t0,2)
    by={}
    for o in ex.obls:
        if o['ok']: by[o['by']]=by.get(o['by'],0)+1
    r['by']=by
    return r
Timeout_=EX.Timeout
def verify_variant(ex,f,name,con,al,r):
    su=Setup(ex,f,con,al)
    tys=[p[0] for p in f.params];ats=[p[1] for p in f.params]
    nargs=len(f.params)
    work=[su.st];cases=[]
    while work:
        st=work.pop()
        try:
            st2=st.clone();c=Call(ex,st2,con,name,su.args[:nargs],tys,ats,'spec')
            c.setup=su
            c.run()
            cases.append((st,st2,c))
        except Fork as fk:
            a=st.clone();a.assume(fk.cond);b=st.clone();b.assume(Not(fk.cond))
            work+=[x for x in (a,b) if ex.feasible(x)]
        except (Infeasible,EX.PathEnd): pass
    r['spec_cases']+=len(cases)
    feas=0
    for st,exp,c in cases:
        if not ex.feasible(exp): continue
        feas+=1
        run=su.st.clone();run.pc=list(exp.pc);run.dead=list(su.st.dead)
        for k,v in exp.ghost.items():
            if isinstance(k,tuple) and k[0] in('lit','nul'): run.ghost[k]=v
        fr=Frame(f);fr.blk=f.order[0]
        if f.vararg: fr.va=VAARGS
        for (ty,at,nm),v in zip(f.params,su.args): fr.env[nm]=v
        run.frames=[fr]
        def sink(stf,v,exp=exp,c=c):
            r['paths']+=1
            if not r.get('reached') and r['paths']<=12:
                # vacuity: the facts of at least one returning path (quantified ones included) are not contradictory
                q,_=check_sat(stf.pc,700,1)
                if q!=z3.unsat: r['reached']=str(q)
                else: r['contradictory']=r.get('contradictory',0)+1
            w=[stf]
            while w:
                x=w.pop()
                try: compare(ex,x.clone(),v,exp,c,su)
                except Fork as fk:
                    a=x.clone();a.assume(fk.cond);b=x;b.assume(Not(fk.cond))
                    w+=[y for y in (a,b) if ex.feasible(y)]
                except (Infeasible,EX.PathEnd): pass
        ex.drive([run],sink,r)
    if feas==0: raise Unsupported('vacuous precondition')
def compare(ex,st,v,exp,c,su):
    h=ex.h;goals=[]
    exp=exp.clone()
    out=v[1] if isinstance(v,tuple) and v and v[0]=='exception' else None
    if out!=c.thrown:
        ex.oblige(st,False,'postcondition','an exception leaves the function' if c.thrown is None else 'the exception does not leave the function');return
    for f in c.pre: f(st)      # witnesses: what the code chose where the specification leaves a choice
    if c.retT is not None:
        if c.sret is not None: a=h.read_obj(st,c.sret,c.retT)
        else: a=from_ir(ex,st,c.retT,v)
        view_eq(ex,st,c.retT,a,c.retv,'result',goals)
    cmp_blocks(ex,st,exp,c,su,goals)
    for d,g in goals: ex.oblige(st,g,'postcondition',d,12000)
    if c.con.o.get('check'): c.con.o['check'](c,st,exp,v)
    for d,f in c.post:
        t0=time.time()
        if os.environ.get('DVT') and c.post[0][0]!=d: print('POST before',d,'%.1f'%(t0-globals().get('LT',t0)))
        globals()['LT']=t0
        g=f(st)
        if isinstance(g,tuple): oblige_split(ex,g[0],g[1],d)   # over a weaker state the contract chose
        else: oblige_split(ex,st,g,d)
    # effects on the outside, in order
    ta=st.trace;te=exp.trace
    if len(ta)!=len(te): ex.oblige(st,False,'postcondition','calls made: %s, expected %s'%([x[0] for x in ta],[x[0] for x in te]))
    for x,y in zip(ta,te):
        if x[0]!=y[0] or len(x)!=len(y): ex.oblige(st,False,'postcondition','call %s, expected %s'%(x[0],y[0]))
        for p,q in zip(x[1:],y[1:]):
            if isinstance(p,tuple):
                gs=[];view_eq(ex,st,p[0],p[1],q[1],'argument of '+x[0],gs)
                for d,g in gs: ex.oblige(st,g,'postcondition',d,12000)
            else: ex.oblige(st,eq(p,q) if not isinstance(p,Ptr) else ptr_eq(ex,st,p,q),'postcondition','argument of '+x[0])
    if c.thrown is not None and c.sret is not None and c.sret.base in st.mem:
        bad=h.owner_cells(st,c.sret.base)
        if bad: ex.oblige(st,False,'leak','the result was made but the function throws: '+bad[0])
    if c.sret is not None and c.sret.base in st.mem: del st.mem[c.sret.base]
    # nothing leaked
    keep=set()
    for b,d in list(st.mem.items()):
        if b.kind=='heap' and d.live and b not in exp.mem:
            if b in (c.st.ghost.get('kept') or ()): continue
            ex.oblige(st,eq(b.size,0) if b.name in('buf','strbuf') else False,'leak','storage never released: %r'%b)
def updated_read(e,vs):
    """an innermost read of an updated array (one at a variable first): (the read, position updated, value there, read of the array before)"""
    seen=set();best=[None];w=[e]
    while w:
        x=w.pop()
        if x.get_id() in seen or z3.is_quantifier(x): continue
        seen.add(x.get_id());w+=x.children()
        if z3.is_app_of(x,z3.Z3_OP_SELECT) and z3.is_app_of(x.arg(0),z3.Z3_OP_STORE) and any(x.arg(1).eq(v) for v in vs):
            a=x.arg(0);return x,a.arg(1),a.arg(2),z3.Select(a.arg(0),x.arg(1))
    seen=set()
    def go(x):
        if x.get_id() in seen or best[0] is not None: return
        seen.add(x.get_id())
        if z3.is_quantifier(x): return
        for c in x.children(): go(c)
        if best[0] is None and z3.is_app_of(x,z3.Z3_OP_SELECT) and z3.is_app_of(x.arg(0),z3.Z3_OP_STORE):
            a=x.arg(0);best[0]=(x,a.arg(1),a.arg(2),z3.Select(a.arg(0),x.arg(1)))
    go(e);return best[0]
def oblige_split(ex,st,g,desc):
    """a quantified postcondition over updated arrays: if it is not proved at once, by cases on the updated positions"""
    g=val_of(g)
    if not(isz(g) and z3.is_quantifier(g)): ex.oblige(st.clone(),g,'postcondition',desc,12000);return
    if valid(st.pc,g,1000,2)[0] is True: ex.oblige(st.clone(),g,'postcondition',desc,known=True);return
    vs=[z3.Int(fresh_name(g.var_name(i))) for i in range(g.num_vars())]
    body=z3.substitute_vars(g.body(),*reversed(vs))
    def go(st,q,d):
        if time.time()>ex.t_end: raise Timeout_('time budget')
        q=val_of(z3.simplify(q));t0=time.time()
        u=None if isinstance(q,bool) else updated_read(q,vs)
        r=q if isinstance(q,bool) else None if u is not None and any(u[0].arg(1).eq(v) for v in vs) else valid(st.pc,q,400,2)[0] is True
        if os.environ.get('DVT'): print(desc,d,r,'%.2f'%(time.time()-t0))
        if r is True or u is None or d>9: ex.oblige(st,q,'postcondition',desc+' (by cases)',8000,known=r is True);return
        x,i,v,old=u;c=x.arg(1)==i
        for cond,w in ((c,v),(Not(c),old)):
            y=st.clone();y.assume(cond)
            if ex.feasible(y): go(y,z3.substitute(q,(x,w)),d+1)
    go(st,body,0)
def cmp_blocks(ex,st,exp,c,su,goals):
    h=ex.h
    for b in list(exp.mem):
        if b.kind!='param' or (c.sret is not None and b is c.sret.base): continue
        ed=exp.mem[b]
        if b not in st.mem: ex.oblige(st,False,'postcondition','%s released'%b.name);continue
        if ed.arr is not None:
            aa=st.mem[b].arr
            if aa is None or not aa[1].eq(ed.arr[1]): raise Unsupported('array parameter changed')
            for i in(2,3): goals.append((b.name+' elements',eq(aa[i],ed.arr[i])))
            continue
        offs=sorted(ed.cells)
        covered=[]
        for o in offs:
            sz,T_,ev=ed.cells[o]
            covered.append((o,o+sz))
            ad=st.mem[b];ac=ad.cells.get(o)
            if ac is not None and ac[2] is ev and ac[0]==sz: continue
            if T_ is None:
                if ac is not None and ac[1] is None: goals.append(('%s+%d'%(b.name,o),eq(ac[2],ev) if not isinstance(ev,Ptr) else ptr_eq(ex,st,ac[2],ev)));continue
                raise Unsupported('untyped cell of '+b.name)
            av=h.read_cells(st,b,o,T_)
            view_eq(ex,st,T_,av,ev,'%s'%b.name if o==0 else '%s+%d'%(b.name,o),goals)
        for o,(sz,T_,v) in list(st.mem[b].cells.items()):
            if not any(x<=o<y for x,y in covered) and T_ is not None and T_.owner:
                if h.owner_cells(st,b,o,sz): ex.oblige(st,False,'postcondition','%s+%d still holds a live %s'%(b.name,o,T_.name))

# ---------------------------------------------------------------- values of parameters, copies
def pval(c,i):
    """value of a by-value parameter"""
    t,v=c.params[i];T_=c.T(t)
    if T_.kind=='sv' and isinstance(v,(list,tuple)): return c.h.mk_view(c.st,*ptr_len(T_,v))
    if isinstance(v,(list,tuple)) and T_.kind=='rec': return uncoerce(c,T_,v)
    if T_.kind=='rec' and T_.name.startswith('user::') and not isinstance(v,Ptr): return uncoerce(c,T_,[v])
    if isinstance(v,Ptr) and T_.kind=='ptr': return v
    if isinstance(v,Ptr) and T_.kind!='ptr' and not coerced(T_): return c.h.read_obj(c.st,v,T_)
    if T_.kind=='bool': return i2b(v) if not(isinstance(v,bool) or (isz(v) and z3.is_bool(v))) else v
    if T_.kind=='rec': return from_ir(c.ex,c.st,T_,v)
    return v
def uncoerce(c,T_,vals):
    """a small record from the registers it was passed in"""
    b=c.st.new_block('arg','stack',T_.size)
    for k,x in enumerate(vals): c.st.w(b).cells[8*k]=(min(8,T_.size-8*k),None,x)
    r=c.h.read_cells(c.st,b,0,T_);del c.st.mem[b];return r
def coerced(T_):
    """a trivially copyable record of one scalar: passed in a register"""
    return T_.kind=='rec' and not T_.owner and len(T_.fields)==1 and (T_.fields[0][2].kind in('ptr','int','bool') or coerced(T_.fields[0][2]))
def leave_moved(c,i):
    """a by-value parameter object whose contents were moved away: valid, contents unspecified"""
    t,v=c.params[i];T_=c.T(t)
    if isinstance(v,Ptr) and T_.kind!='ptr' and not coerced(T_): c.wr(v,T_,MOVED[T_.name](c,T_) if T_.name in MOVED else UnspecV(T_) if T_.owner else c.h.read_obj(c.st,v,T_))
MOVED={}   # contents of moved-from objects of a user's type
def pref(t):
    """type a reference or pointer parameter refers to"""
    t=re.sub(r'(\*const|&&|[*&])$','',norm_t(t)).strip()
    return re.sub(r'\s*\bconst$','',t).strip()
Contract.deep={}
def deep_copy(c,T_,v):
    """what copying an object of the type gives"""
    k=T_.kind
    if isinstance(v,UnspecV): return v
    if not T_.owner: return v
    if k=='str':
        import specs_text
        return specs_text.copy_of(c,v,ok=v.ok)
    if k=='rec': return RecV(T_,[deep_copy(c,f[2],x) for f,x in zip(T_.fields,v.vs)])
    if k=='exp':
        if c.case(v.ok): return ExpV(T_,True,deep_copy(c,T_.Tt,v.val))
        return ExpV(T_,False,None,deep_copy(c,T_.Et,v.err))
    if k=='opt':
        if c.case(v.has): return OptV(T_,True,deep_copy(c,T_.Tt,v.val))
        return OptV(T_,False)
    if k=='vec':
        el=c.ex.types.el(T_)
        return VecV(el,v.l,v.l,copy_arr(c,el,v.arr,v.l))
    raise Unsupported('copy of '+T_.name)
def copy_arr(c,el,arr,l,off=0):
    """a new array with copies of the elements"""
    if not el.owner and off==0: return arr
    A=z3.Const(fresh_name('copy'),arr.sort());j=z3.Int(fresh_name('cj'))
    if c.mode=='spec' and not el.owner or not el.owner:
        c.fact(z3.ForAll([j],z3.Implies(z3.And(0<=j,j<zi(l)),z3.Select(A,j)==z3.Select(arr,j+zi(off))),patterns=[z3.Select(A,j)]));return A
    x=c.ex.sorts.fz(el,z3.Select(A,j));y=c.ex.sorts.fz(el,z3.Select(arr,j+zi(off)))
    for pats,f in copied(c.ex,el,x,y):
        c.fact(z3.ForAll([j]+pats[0],z3.Implies(z3.And(0<=j,j<zi(l)),zb(f)),patterns=[pats[1] if pats[1] is not None else z3.Select(A,j)]))
    return A
def elem_eq(ex,T_,x,y):
    """what the elements' operator== decides (formula over two element terms)"""
    a,b=ex.sorts.fz(T_,x),ex.sorts.fz(T_,y)
    if T_.kind in('str','sv'): return a.txt==b.txt
    if T_.kind in('int','bool','ptr'): return x==y
    if T_.kind=='rec': return And(*[elem_eq(ex,f[2],ex.sorts.tz(f[2],p),ex.sorts.tz(f[2],q)) for f,p,q in zip(T_.fields,a.vs,b.vs)])
    if T_.kind=='vec':
        import specs_vec
        el=ex.types.el(T_);return And(eq(a.l,b.l),True if a.arr.eq(b.arr) else specs_vec.samev(el,ex.sorts.sort(el))(a.arr,b.arr,zi(a.l)))
    return z3.Function('SAME_'+T_.name,x.sort(),x.sort(),BoolS)(x,y)
def eq_ok(ex,T_,x):
    """what operator== needs of an element"""
    v=ex.sorts.fz(T_,x)
    return v.ok if T_.kind=='str' else True
def copied(ex,T_,x,y):
    """facts: x is a copy of y; list of ((extra variables, pattern), fact)"""
    k=T_.kind;out=[]
    if not T_.owner: 
        return [(([],None),ex.sorts.tz(T_,x)==ex.sorts.tz(T_,y))]
    if k=='str':
        q=z3.Int(fresh_name('ck'))
        b=z3.Select(CH(zi(x.b)),q)
        return [(([],None),And(eq(x.l,y.l),eq(x.ok,y.ok),x.txt==y.txt)),
                (([q],b),Implies(And(le(0,q),lt(q,x.l)),b==z3.Select(CH(zi(y.b)),q)))]
    if k=='rec': return [z for f,a,b in zip(T_.fields,x.vs,y.vs) for z in copied(ex,f[2],a,b)]
    if k=='vec' and not ex.types.el(T_).owner:
        q=z3.Int(fresh_name('ck'));s=z3.Select(x.arr,q)
        return [(([],None),eq(x.l,y.l)),(([q],s),Implies(And(le(0,q),lt(q,x.l)),s==z3.Select(y.arr,q)))]
    raise Unsupported('copies of '+T_.name)
def empty_arr(ex,el):
    """what is stored in a vector without elements (never looked at)"""
    return z3.Const('EMPTY:'+el.name,z3.ArraySort(IntS,ex.sorts.sort(el)))
def default_of(c,T_):
    """what T() gives"""
    k=T_.kind
    if k=='int': return 0
    if k=='bool': return False
    if k=='ptr': return NULL
    if k=='str':
        return c.text(0)
    if k=='sv':
        p=c.ex.literal(c.st,b'\0');return SVV(p.base.bid,0,0)
    if k=='vec': return VecV(c.ex.types.el(T_),0,0,empty_arr(c.ex,c.ex.types.el(T_)))
    if k=='rec': return RecV(T_,[default_of(c,f[2]) for f in T_.fields])
    if k=='opt': return OptV(T_,False)
    raise Unsupported('default of '+T_.name)
def is_default(ex,T_,v):
    """v is what T() gives"""
    k=T_.kind
    if k in('int','bool'): return eq(v,0) if k=='int' else Not(v)
    if k=='ptr': return v.null
    if k=='str': return And(eq(v.l,0),v.ok)
    if k=='vec': return eq(v.l,0)
    if k=='sv': return And(eq(v.l,0),eq(v.o,0),eq(v.b,ex.literal(State(ex),b'\0').base.bid))
    if k=='rec': return And(*[is_default(ex,f[2],x) for f,x in zip(T_.fields,v.vs)])
    raise Unsupported('default of '+T_.name)
def equal_values(c,T_,x,y):
    """C++ operator== on two values (as a formula)"""
    k=T_.kind
    if k in('int','bool'): return eq(x,y)
    if k in('str','sv'): return teq(c.ex,c.st,x,y)
    if k=='ptr': return ptr_eq(c.ex,c.st,x,y)
    raise Unsupported('equality of '+T_.name)
