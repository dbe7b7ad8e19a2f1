"""Contracts of the external (C/C++ runtime) functions: assumed, listed in the evidence."""
from core import *
from state import *
import z3

EXT={}
def ext(*names):
    def d(f):
        for n in names: EXT[n]=f
        return f
    return d
def by_dem(d): return None

@ext('__assert_fail')
def _assert(ex,st,a,t,fr):
    txt=''
    if isinstance(a[0],Ptr) and isinstance(a[0].base,TextBase) and a[0].base.bid in ex.litbytes: txt=ex.litbytes[a[0].base.bid].rstrip(b'\0').decode(errors='replace')
    ex.oblige(st,False,'assertion',txt);raise Infeasible()
@ext('abort','_ZSt9terminatev','__clang_call_terminate','__cxa_pure_virtual')
def _abort(ex,st,a,t,fr):
    ex.oblige(st,False,'abort','the program terminates');raise Infeasible()
TYPE_IDS={}
def type_id(name): return TYPE_IDS.setdefault(name,len(TYPE_IDS)+1)
@ext('llvm.eh.typeid.for','llvm.eh.typeid.for.p0')
def _typeid(ex,st,a,t,fr): return type_id(a[0].base.name)
@ext('__cxa_begin_catch')
def _begin(ex,st,a,t,fr):
    st.ghost['caught']=st.ghost.get('caught',())+(st.exc,);return a[0]
@ext('__cxa_end_catch')
def _end(ex,st,a,t,fr):
    g=st.ghost.get('caught',())
    if not g: raise Unsupported('end of a handler outside one')
    st.ghost['caught']=g[:-1];st.exc=g[-1];st.dead.append(z3.Int('what of exception %s'%g[-1]))
@ext('__cxa_rethrow')
def _rethrow(ex,st,a,t,fr):
    g=st.ghost.get('caught',())
    if not g: ex.oblige(st,False,'abort','rethrow outside a handler');raise Infeasible()
    raise Thrown(g[-1])
@ext('__cxa_call_unexpected','_ZSt10unexpectedv')
def _unexp(ex,st,a,t,fr): return _abort(ex,st,a,t,fr)
def new(ex,st,n,how):
    ex.assumed.add('operator new returns fresh storage (allocation does not fail)')
    b=st.new_block('new','heap',n);b.how=how
    if not isinstance(n,int): st.assume(le(0,n),lt(n,MAXLEN))
    return Ptr(b,0)
@ext('_Znam')
def _newa(ex,st,a,t,fr): return new(ex,st,a[0],'[]')
@ext('_Znwm')
def _new(ex,st,a,t,fr): return new(ex,st,a[0],'')
def delete(ex,st,p,how):
    if p.base is None: return
    if ex.h.decide(st,p.null): return
    p=ex.h.canon(st,p)
    b=p.base
    if not isinstance(b,Block):
        raise Unsupported('delete of %r'%(p,))
    d=st.mem.get(b)
    if d is None or not d.live: ex.oblige(st,False,'double-free','storage released twice');return
    ex.oblige(st,b.kind=='heap','release','delete of storage that is not on the heap')
    ex.oblige(st,eq(p.off,0),'release','delete of a pointer into the middle')
    if getattr(b,'how',how)!=how: ex.oblige(st,False,'release','new/delete[] mismatch')
    bad=ex.h.owner_cells(st,b)
    if bad: ex.oblige(st,False,'leak','storage released with a live object: '+bad[0])
    if d.arr is not None and d.arr[0].owner: ex.oblige(st,eq(d.arr[2],d.arr[3]),'leak','storage released with live elements')
    if d.ver is not None: st.dead.append(d.ver)
    # a text id that names this storage (an unfolded string)
    d=st.w(b);d.live=False;del st.mem[b]
@ext('_ZdaPv','_ZdaPvm')
def _dela(ex,st,a,t,fr): delete(ex,st,a[0],'[]')
@ext('_ZdlPv','_ZdlPvm')
def _del(ex,st,a,t,fr): delete(ex,st,a[0],'')
@ext('memcpy')
def _memcpy(ex,st,a,t,fr): ex.h.copy(st,a[0],a[1],a[2],'memcpy');return a[0]
@ext('memmove')
def _memmove(ex,st,a,t,fr): ex.h.copy(st,a[0],a[1],a[2],'memmove');return a[0]
@ext('strlen')
def _strlen(ex,st,a,t,fr):
    p=a[0];ex.h.deref_checks(st,p,'strlen')
    b,o=ex.h.as_text(st,p)
    ex.h.alive_text(st,b,'strlen')
    if isinstance(b,int) and b in ex.litbytes and isinstance(val_of(simp(o)) if isz(o) else o,int):
        ov=val_of(simp(o)) if isz(o) else o
        return ex.litbytes[b].index(b'\0',ov)-ov
    return strlen_of(ex,st,b,o)
def strlen_of(ex,st,b,o,oblige=True):
    """length of the terminated text at (b,o): needs a terminator inside the block"""
    r=SLEN(CH(zi(b)),zi(o))
    # the terminator exists: witness is any known one
    if oblige:
        w=st.ghost.get(('nul',b if isinstance(b,int) else b.get_id()))
        z=w if w is not None else sub(BSZ(zi(b)),1)
        ex.oblige(st,And(le(o,z),lt(z,BSZ(zi(b))),eq(z3.Select(CH(zi(b)),zi(z)),0)),'bounds','text without terminator')
    facts=slen_facts(b,o)
    st.assume(*facts)
    if oblige: st.assume(le(r,sub(z,o)))
    return r
SLEN=z3.Function('SLEN',z3.ArraySort(IntS,IntS),IntS,IntS)
def slen_facts(b,o):
    """given that a terminator exists at or after o"""
    r=SLEN(CH(zi(b)),zi(o));j=z3.Int('slj')
    return [le(0,r),eq(z3.Select(CH(zi(b)),zi(add(o,r))),0),
        z3.ForAll([j],z3.Implies(z3.And(j>=zi(o),j<zi(o)+r),z3.Select(CH(zi(b)),j)!=0),patterns=[z3.Select(CH(zi(b)),j)])]
@ext('memcmp')
def _memcmp(ex,st,a,t,fr):
    ex.assumed.add('memcmp compares bytes (ISO C)')
    n=a[2]
    if isinstance(n,int) and n==0: return 0
    ex.h.deref_checks(st,a[0],'memcmp');ex.h.deref_checks(st,a[1],'memcmp')
    b1,o1=ex.h.as_text(st,a[0]);b2,o2=ex.h.as_text(st,a[1])
    ex.h.alive_text(st,b1,'memcmp');ex.h.alive_text(st,b2,'memcmp')
    ex.oblige(st,And(le(0,o1),le(add(o1,n),BSZ(zi(b1))),le(0,o2),le(add(o2,n),BSZ(zi(b2)))),'bounds','memcmp range')
    r=fresh_int('memcmp');w=fresh_int('w');j=z3.Int('mcj')
    A,B=CH(zi(b1)),CH(zi(b2))
    st.assume(le(0,r),lt(r,1<<32),
      Implies(ne(r,0),And(le(0,w),lt(w,n),ne(z3.Select(A,zi(add(o1,w))),z3.Select(B,zi(add(o2,w)))))),
      Implies(eq(r,0),z3.ForAll([j],z3.Implies(z3.And(j>=zi(o1),j<zi(add(o1,n))),z3.Select(A,j)==z3.Select(B,j+zi(sub(o2,o1)))),patterns=[z3.Select(A,j)])),
      Implies(eq(r,0),z3.ForAll([j],z3.Implies(z3.And(j>=zi(o2),j<zi(add(o2,n))),z3.Select(B,j)==z3.Select(A,j+zi(sub(o1,o2)))),patterns=[z3.Select(B,j)])))
    return r
@ext('tolower')
def _tolower(ex,st,a,t,fr):
    ex.assumed.add('tolower in the C locale: maps A-Z to a-z and leaves other values alone')
    c=a[0]
    if isinstance(c,int): return c+32 if 65<=c<=90 else c
    return If(And(le(65,c),le(c,90)),add(c,32),c)
@ext('__errno_location')
def _errno(ex,st,a,t,fr):
    b=st.ghost.get('errno_block')
    if b is None:
        b=st.new_block('errno','global',4);st.ghost['errno_block']=b
        st.w(b).cells[0]=(4,ex.types.get('int'),fresh_int('errno'))
        st.assume(le(0,st.mem[b].cells[0][2]),lt(st.mem[b].cells[0][2],1<<31))
    return Ptr(b,0)

def intrinsic(n):
    if n.startswith('llvm.memcpy'): return lambda ex,st,a,t,fr: ex.h.copy(st,a[0],a[1],a[2],'memcpy')
    if n.startswith('llvm.memmove'): return lambda ex,st,a,t,fr: ex.h.copy(st,a[0],a[1],a[2],'memmove')
    if n.startswith('llvm.memset'): return memset
    if n.startswith('llvm.va_start'): return va_start
    if n.startswith('llvm.va_end') or n.startswith('llvm.lifetime') or n.startswith('llvm.dbg') or n.startswith('llvm.assume'): return lambda ex,st,a,t,fr: None
    if n.startswith('llvm.va_copy'): return va_copy
    if n.startswith('llvm.trap'): return lambda ex,st,a,t,fr: _abort(ex,st,a,t,fr)
    return None
def memset(ex,st,a,t,fr):
    p,v,n=a[0],a[1],val_of(a[2])
    if not isinstance(n,int) or v!=0 : raise Unsupported('memset')
    h=ex.h;q=h.canon(st,p);d=st.mem.get(q.base) if isinstance(q.base,Block) else None
    if d is not None and d.arr is not None and d.arr[0].owner and n==d.arr[0].size:
        # raw storage of one element that is still to be constructed: its contents mean nothing yet
        h.deref_checks(st,p,'memset');h.bounds(st,q,n,'memset')
        i,r=h.arr_idx(st,q,d,'memset')
        ex.oblige(st,And(eq(r,0),Or(lt(i,d.arr[2]),le(d.arr[3],i))),'lifetime','memset over constructed elements')
        return
    if n%8==0:
        for k in range(0,n,8): ex.h.store(st,p.plus(k),0,__import__('ir').I(64),8)
    elif n<=64:
        for k in range(n): ex.h.store(st,p.plus(k),0,__import__('ir').I(8),1)
    else: raise Unsupported('memset size')
def va_start(ex,st,a,t,fr):
    p=a[0]
    st.ghost[('va',p.base,p.off)]=fr.va
def va_copy(ex,st,a,t,fr):
    st.ghost[('va',a[0].base,a[0].off)]=st.ghost[('va',a[1].base,a[1].off)]
