"""Terms, values, solver interface."""
import time, itertools, os
import z3
from cxxtypes import T

z3.set_param('smt.random_seed',1)
IntS=z3.IntSort();BoolS=z3.BoolSort()
Txt=z3.DeclareSort('Txt')
MAXLEN=1<<47     # assumption: no allocation / text exceeds the 47-bit user address space
INPUT_ID_MAX=10**6

CH=z3.Function('CH',IntS,z3.ArraySort(IntS,IntS))      # bytes of text block
BSZ=z3.Function('BSZ',IntS,IntS)                       # readable bytes of text block
TVB=z3.Function('TVB',IntS,IntS,IntS,Txt)              # text value of (block,off,len)
TLEN=z3.Function('TLEN',Txt,IntS)

class Unsupported(Exception): pass
class Infeasible(Exception): pass

# ---------------------------------------------------------------- terms
def isz(x): return isinstance(x,z3.ExprRef)
def zi(x): return z3.IntVal(x) if isinstance(x,int) else x
def zb(x): return z3.BoolVal(x) if isinstance(x,bool) else x
def simp(x): return z3.simplify(x) if isz(x) else x
def val_of(x):
    """python int if numeral"""
    if isinstance(x,(int,bool)): return x
    if isz(x):
        if z3.is_int_value(x): return x.as_long()
        if z3.is_true(x): return True
        if z3.is_false(x): return False
    return x
def _lin(op,a,b):
    r=z3.simplify(op(zi(a),zi(b)))
    return val_of(r)
def add(a,b):
    if isinstance(a,int) and isinstance(b,int): return a+b
    if isinstance(a,int) and a==0: return b
    if isinstance(b,int) and b==0: return a
    return _lin(lambda x,y:x+y,a,b)
def sub(a,b):
    if isinstance(a,int) and isinstance(b,int): return a-b
    if isinstance(b,int) and b==0: return a
    return _lin(lambda x,y:x-y,a,b)
def mul(a,b):
    if isinstance(a,int) and isinstance(b,int): return a*b
    if isinstance(a,int) and a==1: return b
    if isinstance(b,int) and b==1: return a
    return _lin(lambda x,y:x*y,a,b)
def lt(a,b):
    if isinstance(a,int) and isinstance(b,int): return a<b
    return zi(a)<zi(b)
def le(a,b):
    if isinstance(a,int) and isinstance(b,int): return a<=b
    if isz(a) and isz(b) and a.eq(b): return True
    return zi(a)<=zi(b)
def eq(a,b):
    if isinstance(a,(int,bool)) and isinstance(b,(int,bool)): return a==b
    if isz(a) and isz(b) and a.eq(b): return True
    if isinstance(a,bool) or isinstance(b,bool): return zb(a)==zb(b)
    return zi(a)==zi(b)
def ne(a,b): return Not(eq(a,b))
def And(*xs):
    out=[]
    for x in xs:
        if isinstance(x,(list,tuple)): x=And(*x)
        x=val_of(x)
        if x is True: continue
        if x is False: return False
        out.append(x)
    if not out: return True
    return out[0] if len(out)==1 else z3.And(*out)
def Or(*xs):
    out=[]
    for x in xs:
        if isinstance(x,(list,tuple)): x=Or(*x)
        x=val_of(x)
        if x is False: continue
        if x is True: return True
        out.append(x)
    if not out: return False
    return out[0] if len(out)==1 else z3.Or(*out)
def Not(x):
    x=val_of(x)
    if isinstance(x,bool): return not x
    if z3.is_not(x): return x.arg(0)
    return z3.Not(x)
def Implies(a,b):
    a=val_of(a);b=val_of(b)
    if a is True: return b
    if a is False or b is True: return True
    if b is False: return Not(a)
    return z3.Implies(a,b)
def If(c,a,b):
    c=val_of(c)
    if c is True: return a
    if c is False: return b
    if isinstance(a,bool) or isinstance(b,bool): return z3.If(c,zb(a),zb(b))
    if isinstance(a,int) or isinstance(b,int): return z3.If(c,zi(a),zi(b))
    return z3.If(c,a,b)
def b2i(b):
    b=val_of(b)
    if isinstance(b,bool): return int(b)
    return z3.If(b,z3.IntVal(1),z3.IntVal(0))
def i2b(x):
    """low bit as Bool"""
    x=val_of(x)
    if isinstance(x,int): return bool(x&1)
    if z3.is_app_of(x,z3.Z3_OP_ITE):
        a,b=val_of(x.arg(1)),val_of(x.arg(2))
        if a==1 and b==0: return x.arg(0)
        if a==0 and b==1: return Not(x.arg(0))
    return zi(x)%2==1

def lin_parts(x):
    """x -> (dict atomkey->(atom,coeff), const)"""
    d={};c=0
    def go(t,k):
        nonlocal c
        if isinstance(t,int): c+=t*k;return
        if z3.is_int_value(t): c+=t.as_long()*k;return
        if z3.is_add(t):
            for a in t.children(): go(a,k)
            return
        if z3.is_sub(t):
            ch=t.children();go(ch[0],k)
            for a in ch[1:]: go(a,-k)
            return
        if z3.is_app_of(t,z3.Z3_OP_UMINUS): go(t.arg(0),-k);return
        if z3.is_mul(t):
            ch=t.children();cs=[a for a in ch if z3.is_int_value(a)]
            rest=[a for a in ch if not z3.is_int_value(a)]
            m=1
            for a in cs: m*=a.as_long()
            if len(rest)==1: go(rest[0],k*m);return
            if not rest: c+=k*m;return
        key=t.get_id()
        a,o=d.get(key,(t,0));d[key]=(t,o+k)
    go(x,1)
    return {k:v for k,v in d.items() if v[1]!=0},c
def div_exact(x,n):
    """x = n*q + r with 0<=r<n and r constant; returns (q,r) or None"""
    if isinstance(x,int): return x//n,x%n
    d,c=lin_parts(simp(x))
    for a,k in d.values():
        if k%n: return None
    q=c//n;r=c%n
    t=q
    for a,k in d.values(): t=add(t,mul(k//n,a))
    return t,r

_cnt=itertools.count(1)
def fresh_name(p): return '%s!%d'%(p,next(_cnt))
def fresh_int(p='k'): return z3.Int(fresh_name(p))
def fresh_bool(p='b'): return z3.Bool(fresh_name(p))
_ids=itertools.count(2*INPUT_ID_MAX)
def fresh_id(): return next(_ids)

def sel(a,i):
    i=val_of(i)
    t=a
    while z3.is_app_of(t,z3.Z3_OP_STORE):
        j=t.arg(1)
        if isz(j) and isz(i) and j.eq(i): return t.arg(2)
        jv=val_of(j)
        if isinstance(jv,int) and isinstance(i,int):
            if jv==i: return t.arg(2)
            t=t.arg(0);continue
        break
    return z3.Select(t,zi(i))
def store(a,i,v):
    if not isz(v): v=zi(v) if not isinstance(v,bool) else zb(v)
    return z3.Store(a,zi(i),v)

# ---------------------------------------------------------------- sorts
_dts={}
def mkdt(name,ctors):
    """ctors: list of (cname,[(acc,sort)])"""
    if name in _dts: return _dts[name]
    D=z3.Datatype(name)
    for cn,fs in ctors: D.declare(cn,*fs)
    D=D.create();_dts[name]=D;return D
PTRs=mkdt('PTR',[('mkptr',[('pbase',IntS),('poff',IntS)])])
SVs=mkdt('SV',[('mksv',[('svb',IntS),('svo',IntS),('svl',IntS)])])
STRs=mkdt('STR',[('mkstr',[('stb',IntS),('stl',IntS),('stok',BoolS)])])
def acc(D,ci,ai,t):
    """field ai of constructor ci"""
    c=D.constructor(ci)
    if z3.is_app(t) and t.decl().eq(c): return t.arg(ai)
    return D.accessor(ci,ai)(t)

# ---------------------------------------------------------------- values
class Base:
    """identity of something a pointer can point into"""
    _n=itertools.count(1)
    def __init__(s): s.id=next(Base._n)
class Block(Base):
    def __init__(s,name,kind,size,ty=None): super().__init__();s.name=name;s.kind=kind;s.size=size;s.ty=ty;s.depth=None
    def __repr__(s): return '<%s>'%s.name
class TextBase(Base):
    cache={}
    def __new__(cls,bid):
        k=bid if isinstance(bid,int) else ('z',bid.get_id())
        if k in cls.cache: return cls.cache[k]
        o=object.__new__(cls);cls.cache[k]=o;Base.__init__(o);o.bid=bid;return o
    def __init__(s,bid): pass
    def __repr__(s): return '<text %s>'%s.bid
class VecBase(Base):
    """elements of the vector object stored at owner (a Ptr)"""
    cache={}
    def __new__(cls,owner,elT,epoch):
        k=(owner.base.id,str(owner.off),elT.name,epoch)
        if k in cls.cache: return cls.cache[k]
        o=object.__new__(cls);cls.cache[k]=o;Base.__init__(o);o.owner=owner;o.elT=elT;o.epoch=epoch;return o
    def __init__(s,*a): pass
    def __repr__(s): return '<elems of %s>'%(s.owner,)
class NodeBase(Base):
    """the mapped pair with the given key in the abstract map stored at owner"""
    def __init__(s,owner,mapT,key,epoch): super().__init__();s.owner=owner;s.mapT=mapT;s.key=key;s.epoch=epoch
    def __repr__(s): return '<node of %s>'%(s.owner,)
class OpaqueBase(Base):
    cache={}
    def __new__(cls,term,cls_name):
        k=(term.get_id() if isz(term) else term,cls_name)
        if k in cls.cache: return cls.cache[k]
        o=object.__new__(cls);cls.cache[k]=o;Base.__init__(o);o.term=term;o.cls=cls_name;return o
    def __init__(s,*a): pass
    def __repr__(s): return '<obj %s>'%s.term
class GlobalBase(Base):
    cache={}
    def __new__(cls,name,mod=None):
        k=(name,)
        if k in cls.cache: return cls.cache[k]
        o=object.__new__(cls);cls.cache[k]=o;Base.__init__(o);o.name=name;o.mod=mod;return o
    def __init__(s,*a): pass
    def __repr__(s): return '<@%s>'%s.name
class FuncBase(Base):
    cache={}
    def __new__(cls,name):
        if name in cls.cache: return cls.cache[name]
        o=object.__new__(cls);cls.cache[name]=o;Base.__init__(o);o.name=name;return o
    def __init__(s,*a): pass
    def __repr__(s): return '<fn %s>'%s.name

class Ptr:
    __slots__=('base','off','null')
    def __init__(s,base,off=0,null=False): s.base=base;s.off=off;s.null=val_of(null) if base is not None else True
    def __repr__(s): return 'Ptr(%r+%s%s)'%(s.base,s.off,'' if s.null is False else ' null?%s'%s.null)
    def plus(s,d): return Ptr(s.base,add(s.off,d),s.null)
NULL=Ptr(None,0,True)
class PInt:
    """a pointer seen as an integer"""
    __slots__=('p','d')
    def __init__(s,p,d=0): s.p=p;s.d=d
class VTable:
    def __init__(s,obj,cls): s.obj=obj;s.cls=cls
class VFunc:
    def __init__(s,obj,cls,slot): s.obj=obj;s.cls=cls;s.slot=slot
class Undef: pass
UNDEF=Undef()
class Agg:
    def __init__(s,vs): s.vs=list(vs)
    def __repr__(s): return 'Agg%r'%s.vs
FPS={'float':z3.Float32(),'double':z3.Float64(),'long double':z3.FPSort(15,64)}
class FloatV:
    def __init__(s,t): s.t=t
class VaList:
    def __init__(s,args): s.args=args

class SVV:
    kind='sv'
    def __init__(s,b,o,l): s.b=val_of(b);s.o=val_of(o);s.l=val_of(l)
    def __repr__(s): return 'SV(%s,%s,%s)'%(s.b,s.o,s.l)
    @property
    def txt(s): return TVB(zi(s.b),zi(s.o),zi(s.l))
class StrV:
    kind='str'
    def __init__(s,b,l,ok=True,txt=None): s.b=val_of(b);s.l=val_of(l);s.ok=val_of(ok);s._t=txt
    def __repr__(s): return 'Str(%s,%s,%s)'%(s.b,s.l,s.ok)
    @property
    def txt(s): return s._t if s._t is not None else TVB(zi(s.b),z3.IntVal(0),zi(s.l))
class VecV:
    kind='vec'
    def __init__(s,elT,l,cap,arr): s.elT=elT;s.l=val_of(l);s.cap=val_of(cap);s.arr=arr
    def __repr__(s): return 'Vec(%s,%s)'%(s.l,s.arr if s.arr is None or len(str(s.arr))<200 else '..')
class RecV:
    kind='rec'
    def __init__(s,ty,vs): s.ty=ty;s.vs=list(vs)
    def __repr__(s): return '%s%r'%(s.ty.name.split('::')[-1],s.vs)
    def get(s,name):
        for (o,n,t),v in zip(s.ty.fields,s.vs):
            if n==name: return v
        raise KeyError(name)
    def put(s,name,v):
        r=RecV(s.ty,s.vs)
        for i,(o,n,t) in enumerate(s.ty.fields):
            if n==name: r.vs[i]=v;return r
        raise KeyError(name)
class ExpV:
    kind='exp'
    def __init__(s,ty,ok,val=None,err=None): s.ty=ty;s.ok=val_of(ok);s.val=val;s.err=err
    def __repr__(s): return 'Exp(%s,%r,%r)'%(s.ok,s.val,s.err)
class OptV:
    kind='opt'
    def __init__(s,ty,has,val=None): s.ty=ty;s.has=val_of(has);s.val=val
    def __repr__(s): return 'Opt(%s,%r)'%(s.has,s.val)
class UnspecV:
    kind='unspec'
    def __init__(s,ty): s.ty=ty
    def __repr__(s): return 'Unspec(%s)'%s.ty.name
class MapV:
    """abstract finite map: dom: Txt->Bool, val: Txt->V sort"""
    kind='map'
    def __init__(s,ty,dom,val,n): s.ty=ty;s.dom=dom;s.val=val;s.n=n

# records whose pointer members may be null
NULLABLE=('coil::UniquePtr<','coil::AnyFunctor','coil::detail::FunctionWrapper<')
class Sorts:
    def __init__(s,types): s.types=types;s.cache={};s.ptrreg={};s.ptrids={}
    def sort(s,t):
        if t.name in s.cache: return s.cache[t.name]
        k=t.kind
        if k=='int': r=IntS
        elif k=='bool': r=BoolS
        elif k=='ptr': r=PTRs
        elif k=='sv': r=SVs
        elif k=='str': r=STRs
        elif k=='vec':
            es=s.sort(s.types.el(t))
            r=mkdt('Vec_'+t.name,[('mkvec',[('vl',IntS),('vc',IntS),('va',z3.ArraySort(IntS,es))])])
        elif k=='rec':
            r=mkdt('Rec_'+t.name,[('mk',[('f%d'%i,s.sort(f[2])) for i,f in enumerate(t.fields)] or [('dummy',IntS)])])
        elif k=='exp':
            r=mkdt('Exp_'+t.name,[('val',[('ev',s.sort(t.Tt))]),('err',[('ee',s.sort(t.Et))])])
        elif k=='opt':
            r=mkdt('Opt_'+t.name,[('none',[]),('some',[('ov',s.sort(t.Tt))])])
        elif k=='map':
            r=mkdt('Map_'+t.name,[('mkmap',[('md',z3.ArraySort(Txt,BoolS)),('mv',z3.ArraySort(Txt,s.sort(t.Vt))),('mn',IntS)])])
        elif k=='float': r=FPS[t.name]
        else: raise Unsupported('sort of '+t.name)
        s.cache[t.name]=r;return r
    def baseid(s,b):
        if b is None: return 0
        if isinstance(b,OpaqueBase): return b.term
        if isinstance(b,TextBase): return b.bid
        if b.id not in s.ptrids:
            i=10**9+b.id;s.ptrids[b.id]=i;s.ptrreg[i]=b
        return s.ptrids[b.id]
    def tz(s,t,v):
        """python value -> z3 term"""
        k=t.kind
        if k=='int':
            if isinstance(v,(int,z3.ArithRef)): return zi(v)
            raise Unsupported('int value %r'%(v,))
        if k=='bool': return zb(v)
        if k=='ptr':
            if not isinstance(v,Ptr): raise Unsupported('ptr value %r'%(v,))
            if v.base is None: return PTRs.mkptr(0,0)
            bid=zi(s.baseid(v.base))
            if v.null is not False and not (isz(v.null) and v.null.eq(zb(eq(bid,0)))): bid=If(v.null,0,bid)
            return PTRs.mkptr(bid,zi(v.off))
        if k=='sv': return SVs.mksv(zi(v.b),zi(v.o),zi(v.l))
        if k=='str':
            return STRs.mkstr(zi(v.b),zi(v.l),zb(v.ok))
        if k=='vec': return s.sort(t).constructor(0)(zi(v.l),zi(v.cap),v.arr)
        if k=='rec':
            D=s.sort(t)
            if not t.fields: return D.constructor(0)(z3.IntVal(0))
            return D.constructor(0)(*[s.tz(f[2],x) for f,x in zip(t.fields,v.vs)])
        if k=='exp':
            D=s.sort(t)
            if v.ok is True: return D.constructor(0)(s.tz(t.Tt,v.val))
            if v.ok is False: return D.constructor(1)(s.tz(t.Et,v.err))
            return z3.If(v.ok,D.constructor(0)(s.tz(t.Tt,v.val)),D.constructor(1)(s.tz(t.Et,v.err)))
        if k=='opt':
            D=s.sort(t)
            if v.has is True: return D.constructor(1)(s.tz(t.Tt,v.val))
            if v.has is False: return D.constructor(0)()
            return z3.If(v.has,D.constructor(1)(s.tz(t.Tt,v.val)),D.constructor(0)())
        if k=='map': return s.sort(t).constructor(0)(v.dom,v.val,zi(v.n))
        if k=='float': return v.t
        raise Unsupported('tz '+t.name)
    def fz(s,t,z):
        """z3 term -> python value"""
        k=t.kind
        if k in('int','bool'): return val_of(z)
        if k=='ptr':
            b=val_of(acc(PTRs,0,0,z));o=val_of(acc(PTRs,0,1,z))
            if isinstance(b,int):
                if b==0: return NULL
                if b in s.ptrreg: return Ptr(s.ptrreg[b],o)
                return Ptr(TextBase(b),o)
            if z3.is_app_of(b,z3.Z3_OP_ITE) and val_of(b.arg(1))==0:
                b2=val_of(b.arg(2));c=b.arg(0)
                if isinstance(b2,int) and b2 in s.ptrreg: return Ptr(s.ptrreg[b2],o,c)
                if isz(b2): 
                    return Ptr(s.opaque(t,b2),o,c)
            return Ptr(s.opaque(t,b),o,eq(b,0))
        if k=='sv': return SVV(acc(SVs,0,0,z),acc(SVs,0,1,z),acc(SVs,0,2,z))
        if k=='str': return StrV(acc(STRs,0,0,z),acc(STRs,0,1,z),acc(STRs,0,2,z))
        if k=='vec':
            D=s.sort(t);return VecV(s.types.el(t),acc(D,0,0,z),acc(D,0,1,z),acc(D,0,2,z))
        if k=='rec':
            D=s.sort(t);return RecV(t,[s.fz(f[2],acc(D,0,i,z)) for i,f in enumerate(t.fields)])
        if k=='exp':
            D=s.sort(t)
            ok=simp(D.recognizer(0)(z))
            return ExpV(t,val_of(ok),s.fz(t.Tt,acc(D,0,0,z)),s.fz(t.Et,acc(D,1,0,z)))
        if k=='opt':
            D=s.sort(t);return OptV(t,val_of(simp(D.recognizer(1)(z))),s.fz(t.Tt,acc(D,1,0,z)))
        if k=='map':
            D=s.sort(t);return MapV(t,acc(D,0,0,z),acc(D,0,1,z),acc(D,0,2,z))
        if k=='float': return FloatV(z)
        raise Unsupported('fz '+t.name)
    def opaque(s,t,b):
        to=t.to if t.to.startswith('fn:') else t.to.replace(' const','').strip()
        if to=='char': return TextBase(b)
        return OpaqueBase(b,to)
    def inv(s,t,v):
        """facts true of every value of the type (established whenever one is created)"""
        k=t.kind;out=[]
        if k=='int':
            if isz(v): out.append(And(le(0,v),lt(v,1<<t.w)))
        elif k=='sv':
            out+= [le(0,v.o),le(0,v.l),le(add(v.o,v.l),BSZ(zi(v.b))),lt(BSZ(zi(v.b)),MAXLEN),lt(0,v.b)]
        elif k=='str':
            out+=[le(0,v.l),Implies(v.ok,And(lt(v.l,BSZ(zi(v.b))),eq(z3.Select(CH(zi(v.b)),zi(v.l)),0),lt(0,v.b))),lt(BSZ(zi(v.b)),MAXLEN),
                  Implies(Not(v.ok),eq(v.l,0)),lt(v.l,MAXLEN)]
            if isz(v.b): out.append(Or(le(v.b,INPUT_ID_MAX),le(2*INPUT_ID_MAX,v.b)))   # never a string literal's storage
        elif k=='vec':
            sz=max(v.elT.size or 1,1)
            out+=[le(0,v.l),le(v.l,v.cap),lt(mul(sz,v.cap),MAXLEN)]
        elif k=='rec':
            if getattr(t,'memptr',False) and isz(v.vs[1]): out.append(lt(v.vs[1],1<<31))
            for f,x in zip(t.fields,v.vs): out+=s.inv(f[2],x)
        elif k=='exp':
            a=s.inv(t.Tt,v.val) if v.val is not None and v.ok is not False else []
            b=s.inv(t.Et,v.err) if v.err is not None and v.ok is not True else []
            out+=[Implies(v.ok,x) for x in a]+[Implies(Not(v.ok),x) for x in b]
        elif k=='opt':
            if v.val is not None and v.has is not False: out+=[Implies(v.has,x) for x in s.inv(t.Tt,v.val)]
        elif k=='map': out.append(le(0,v.n))
        return [x for x in (val_of(y) for y in out) if x is not True]
    def nullable(s,t,name):
        b=z3.Int(fresh_name(name+'.p'));return Ptr(s.opaque(t,b),0,eq(b,0))
    def const(s,t,name):
        """fresh symbolic value"""
        k=t.kind
        if k=='int': return z3.Int(fresh_name(name))
        if k=='bool': return z3.Bool(fresh_name(name))
        if k=='rec':
            if getattr(t,'memptr',False): return RecV(t,[s.const(t.fields[0][2],name),0 if t.const0 else z3.Int(fresh_name(name+'.adj'))])
            nl=t.name.startswith(NULLABLE)
            return RecV(t,[s.const(f[2],name+'.'+f[1]) if not(nl and f[2].kind=='ptr') else s.nullable(f[2],name+'.'+f[1]) for f in t.fields])
        if k=='exp': return ExpV(t,z3.Bool(fresh_name(name+'.ok')),s.const(t.Tt,name+'.val'),s.const(t.Et,name+'.err'))
        if k=='opt': return OptV(t,z3.Bool(fresh_name(name+'.has')),s.const(t.Tt,name+'.val'))
        if k=='sv': return SVV(z3.Int(fresh_name(name+'.b')),z3.Int(fresh_name(name+'.o')),z3.Int(fresh_name(name+'.l')))
        if k=='str': return StrV(z3.Int(fresh_name(name+'.b')),z3.Int(fresh_name(name+'.l')),True)
        if k=='vec':
            el=s.types.el(t)
            return VecV(el,z3.Int(fresh_name(name+'.l')),z3.Int(fresh_name(name+'.cap')),z3.Const(fresh_name(name+'.a'),z3.ArraySort(IntS,s.sort(el))))
        if k=='ptr':
            b=z3.Int(fresh_name(name+'.p'))
            return Ptr(s.opaque(t,b),0 if not t.to.startswith('char') else z3.Int(fresh_name(name+'.o')),False)
        if k=='float': return FloatV(z3.Const(fresh_name(name),s.sort(t)))
        return s.fz(t,z3.Const(fresh_name(name),s.sort(t)))

# ---------------------------------------------------------------- spec functions
class SpecFn:
    all={}
    def __init__(s,name,argsorts,res,body,depth=2):
        s.name=name;s.f=z3.Function(name,*(list(argsorts)+[res]));s.body=body;s.depth=depth
        s.key=s.f.ast if False else s.f.get_id();SpecFn.all[s.key]=s
    def __call__(s,*a): return s.f(*[zi(x) if isinstance(x,int) and not isinstance(x,bool) else zb(x) if isinstance(x,bool) else x for x in a])

_appc={}
def apps_of(e):
    """spec-function applications in e (not under quantifiers), memoised per formula"""
    i=e.get_id();r=_appc.get(i)
    if r is not None: return r[0]
    seen=set();out=[];st=[e]
    while st:
        x=st.pop();k=x.get_id()
        if k in seen: continue
        seen.add(k)
        if z3.is_app(x):
            n=x.num_args()
            if n:
                d=x.decl()
                if d.kind()==z3.Z3_OP_UNINTERPRETED:
                    sf=SpecFn.all.get(d.get_id())
                    if sf: out.append((sf,x))
                st.extend(x.children())
    _appc[i]=(out,e);return out
def collect_apps(exprs,seen,apps):
    for e in exprs:
        for sf,x in apps_of(e):
            if x.get_id() not in seen: seen.add(x.get_id());apps.append((sf,x))
_bodies={}        # definitional equation of each application (kept alive with it)
def unfold(exprs,rounds=2):
    """definitional equations for the ground spec-function applications in exprs"""
    seen=set();out=[];frontier=list(exprs);done=set()
    for r in range(rounds):
        apps=[];collect_apps(frontier,seen,apps);frontier=[]
        for sf,e in apps:
            if e.get_id() in done or sf.depth<=r: continue
            done.add(e.get_id())
            m=_bodies.get(e.get_id())
            if m is None:
                b=sf.body(*[e.arg(i) for i in range(e.num_args())])
                if b is None: eqs=[]
                elif isinstance(b,list): eqs=b
                else: eqs=[e==b if isz(b) else e==(zb(b) if isinstance(b,bool) else zi(b))]
                m=_bodies[e.get_id()]=(eqs,e)
            eqs=m[0]
            out+=eqs;frontier+=eqs
        if not frontier: break
    return out

# ---------------------------------------------------------------- solver
class Stats:
    def __init__(s): s.q=0;s.t=0.0;s.by={}
STATS=Stats()
AXIOMS=[]     # closed axioms (definitional), each (name, formula)
ATTEMPT=0    # a repeated job (after a crash of the solver library) uses the other solver object
def mksolver(): return z3.SimpleSolver() if ATTEMPT==0 else z3.Solver()
def _solver(asserts,timeout):
    s=mksolver()
    s.set('timeout',int(timeout))
    for a in asserts: s.add(a)
    for n,a in AXIOMS: s.add(a)
    return s
def check_sat(asserts,timeout=1000,unf=1):
    asserts=[zb(a) for a in asserts]
    t=time.time()
    s=_solver(asserts+unfold(asserts,unf),timeout)
    r=s.check();STATS.q+=1;STATS.t+=time.time()-t
    return r,s
_qc={}
def has_quant(e):
    i=e.get_id()
    r=_qc.get(i)
    if r is not None: return r[0]
    seen=set();st=[e];q=False
    while st:
        x=st.pop()
        if z3.is_quantifier(x): q=True;break
        k=x.get_id()
        if k in seen: continue
        seen.add(k)
        if z3.is_app(x):
            if x.decl().eq(BLITD[0]) if BLITD else False: q=True;break
            st.extend(x.children())
    _qc[i]=(q,e);return q
BLITD=[]
def qf(asserts): return [a for a in asserts if not has_quant(zb(a))]
def check_qf(asserts,timeout=1000,unf=1):
    """ignores the quantified facts: unsat is conclusive, sat is not"""
    asserts=[zb(a) for a in qf(asserts)]
    t=time.time()
    s=mksolver();s.set('timeout',int(timeout))
    for a in asserts: s.add(a)
    for a in unfold(asserts,unf): 
        if not has_quant(a): s.add(a)
    r=s.check();STATS.q+=1;STATS.t+=time.time()-t
    return r,s
def valid(pc,goal,timeout=4000,rounds=2,qfonly=False):
    """True / False(model) / None"""
    goal=val_of(goal)
    if goal is True: return True,None
    g=Not(goal)
    if not has_quant(zb(g)):
        r,s=check_qf(list(pc)+[g],timeout,1 if qfonly else rounds)
        if r==z3.unsat: return True,None
        if qfonly: return (False if r==z3.sat else None),s
    elif qfonly: return None,None
    r,s=check_sat(list(pc)+[g],timeout,rounds)
    if r==z3.unsat: return True,None
    if r==z3.sat: return False,s
    return None,s
def cvc5_check(asserts,timeout=20):
    """second back end on the same obligation, through SMT-LIB"""
    import subprocess,tempfile
    s=z3.Solver()
    for a in asserts: s.add(zb(a))
    for n,a in AXIOMS: s.add(a)
    txt='(set-logic ALL)\n'+s.to_smt2()
    try:
        r=subprocess.run(['cvc5','--lang=smt2','--tlimit=%d'%(timeout*1000)],input=txt,capture_output=True,text=True,timeout=timeout+5)
        return r.stdout.strip().split('\n')[0]
    except Exception as e: return 'error'
