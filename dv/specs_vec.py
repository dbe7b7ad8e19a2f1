"""Contracts: Vector<T> (C09, C10)."""
from contracts import *
import specs_text
V=r'coil::Vector<.*>::'
def elT(c): return c.ex.types.el(c.clsT)
def bump(c,p):
    """iterators and references into the vector become invalid"""
    p=c.h.canon(c.st,p)
    k=(p.base,str(p.off)) if isinstance(p.base,Block) else (p.base,'*')   # inside a container: every nested vector of it
    c.st.epoch[k]=next(_ep)
_ep=itertools.count(1)
def epoch(c,p): return epoch_of(c.st,p)
def elem_ptr(c,i):
    p=c.h.canon(c.st,c.this);c.rd(p)
    if isinstance(p.base,(Block,VecBase)): return c.h.canon(c.st,Ptr(VecBase(p,elT(c),epoch(c,p)),mul(i,elT(c).size)))
    raise Unsupported('element of a vector in %r'%(p,))
def newcap(c,l):
    k=fresh_int('cap');c.fact(le(l,k),lt(mul(elT(c).size,k),MAXLEN));return k
def kill_el(c,v,i):
    el=elT(c)
    if el.owner: c.h.kill_texts(c.st,el,c.ex.sorts.fz(el,sel(v.arr,i)))
BIG=1<<60
@contract(V+r'Vector\(unsigned long\)')
def vec_cap(c):
    n=c.p(0);c.req(lt(n,BIG),'capacity is a possible allocation size');el=elT(c)
    c.fact(lt(mul(el.size,n),MAXLEN))
    c.init(c.this,c.clsT,VecV(el,0,n,empty_arr(c.ex,el)))
@contract(V+r'Vector\(coil::Vector<.*> const&\)')
def vec_copy(c):
    v=c.rd(c.p(0));c.init(c.this,c.clsT,deep_copy(c,c.clsT,v) if c.clsT.owner and elT(c).owner else VecV(elT(c),v.l,v.l,v.arr))
@contract(V+r'Vector\(coil::Vector<.*>&&\)')
def vec_move(c):
    v=c.rd(c.p(0));bump(c,c.p(0));c.init(c.this,c.clsT,v);c.wr(c.p(0),c.clsT,VecV(elT(c),0,0,v.arr))
def _range(s):
    el=s.ex.types.el(s.thisT);n=z3.Int(fresh_name('n'))
    b=s.st.new_block('src','param',mul(n,el.size));s.st.assume(le(0,n),lt(mul(el.size,n),MAXLEN))
    s.st.mem[b].arr=[el,z3.Const(fresh_name('src'),z3.ArraySort(IntS,s.ex.sorts.sort(el))),0,n]
    s.rng=(b,n);i=z3.Int(fresh_name('i'));return Ptr(b,mul(i,el.size))
def _range2(s):
    b,n=s.rng;el=s.ex.types.el(s.thisT);return Ptr(b,mul(z3.Int(fresh_name('j')),el.size))
def copy_hints(ex,g,entry,h,ints,arrs):
    """the first elements are copies of a part of a source array"""
    out=[];srcs=[]
    for b,d in entry.mem.items():
        if d.arr is not None: srcs.append((b.name,d.arr[1]))
        for o,(sz,T_,v) in d.cells.items():
            if isinstance(v,VecV): srcs.append((b.name,v.arr))
    for A in arrs:
        for n,E in srcs:
            if E.sort()!=A.sym.sort() or (isz(A.entry) and E.eq(A.entry)): continue
            for X in ints:
                for Y in ints:
                    if not isz(Y.entry) or Y is X or not isinstance(X.entry,int): continue
                    def f(st,A=A,E=E,X=X,sh=Y.entry):
                        j=z3.Int(fresh_name('hj'));t=z3.Select(A.get(ex,st),j);fs=[]
                        for (qs,pat),fm in copied(ex,A.T,ex.sorts.fz(A.T,t),ex.sorts.fz(A.T,z3.Select(E,j+zi(sh)))):
                            fs.append(z3.ForAll([j]+qs,z3.Implies(z3.And(0<=j,j<zi(X.get(ex,st))),zb(fm)),patterns=[pat if pat is not None else t]))
                        return z3.And(*fs) if len(fs)>1 else fs[0]
                    out.append(('%s[0..%s) copies %s from %s'%(A.name,X.name,n,Y.entry),f))
    return out
@contract(V+r'Vector\((.*) const\*, \1 const\*\)',hints=copy_hints,onlyalias=True,alias=[{('p0',):_range,('p1',):_range2},{('p0',):lambda s:NULL,('p1',):lambda s:NULL}])
def vec_range(c):
    el=elT(c);a,b=c.p(0),c.p(1)
    a=c.h.canon(c.st,a);b=c.h.canon(c.st,b)
    if a.base is None and b.base is None: c.init(c.this,c.clsT,VecV(el,0,0,empty_arr(c.ex,el)));return
    if isinstance(a.base,VecBase):
        src=c.h.read_obj(c.st,a.base.owner,c.ex.types.get('coil::Vector<%s>'%el.name));arr,cnt=src.arr,src.l
    elif isinstance(a.base,Block) and c.st.mem[a.base].arr is not None: arr=c.st.mem[a.base].arr[1];cnt=c.st.mem[a.base].arr[3] if el.owner else div_exact(a.base.size,el.size)[0]
    elif isinstance(a.base,Block):
        # an array of elements on the stack
        d=c.st.mem[a.base];n=val_of(div_exact(sub(b.off,a.off),el.size)[0])
        arr=z3.Const(fresh_name('il'),z3.ArraySort(IntS,c.ex.sorts.sort(el)))
        for k in range(n): arr=store(arr,k,c.ex.sorts.tz(el,c.h.read_obj(c.st,a.plus(k*el.size),el)))
        c.init(c.this,c.clsT,VecV(el,n,n,copy_arr(c,el,arr,n)));return
    else: raise Unsupported('range of %r'%(a,))
    i=div_exact(a.off,el.size)[0];j=div_exact(b.off,el.size)[0];n=sub(j,i)
    c.req(And(le(0,i),le(i,j),le(j,cnt)),'the range lies inside the array')
    c.init(c.this,c.clsT,VecV(el,n,n,copy_arr(c,el,arr,n,i)))
@contract(V+r'~Vector\(\)')
def vec_dtor(c): c.kill(c.this,c.clsT)
@contract(V+r'operator=\(coil::Vector<.*> const&\)',alias=[{('same','p0'):0}])
def vec_assign(c):
    v=c.rd(c.p(0));n=deep_copy(c,c.clsT,v) if elT(c).owner else VecV(elT(c),v.l,newcap(c,v.l),v.arr)
    n.cap=newcap(c,v.l)
    bump(c,c.this);c.wr(c.this,c.clsT,n);c.ret(c.T('void*'),c.this)
@contract(V+r'operator=\(coil::Vector<.*>&&\)',alias=[{('same','p0'):0}])
def vec_massign(c):
    v=c.rd(c.p(0))
    a,b=c.h.canon(c.st,c.this),c.h.canon(c.st,c.p(0))
    if not(a.base is b.base and c.case(eq(a.off,b.off))):
        bump(c,c.this);bump(c,c.p(0))
        c.wr(c.p(0),c.clsT,UnspecV(c.clsT));c.wr(c.this,c.clsT,v)
    c.ret(c.T('void*'),c.this)
def capless(v): v.anycap=True;return v
@contract(V+r'reserve\(unsigned long\)')
def vec_reserve(c):
    v=c.rd(c.this);n=c.p(0);c.req(lt(n,BIG),'capacity is a possible allocation size')
    k=newcap(c,v.l);c.fact(le(n,k));bump(c,c.this)
    c.wr(c.this,c.clsT,VecV(v.elT,v.l,k,v.arr))
@contract(V+r'grow\(unsigned long\)')
def vec_grow(c):
    v=c.rd(c.this);n=c.p(0);c.req(And(lt(n,BIG),le(v.l,n)),'the new capacity holds the elements')
    c.fact(lt(mul(elT(c).size,n),MAXLEN))
    bump(c,c.this);c.wr(c.this,c.clsT,VecV(v.elT,v.l,n,v.arr))
def fill_hints(ex,g,entry,h,ints,arrs):
    out=[]
    for A in arrs:
        for X in ints:
            lo=X.entry
            def f(st,A=A,X=X,lo=lo):
                j=z3.Int(fresh_name('dj'));x=z3.Select(A.get(ex,st),j)
                return z3.ForAll([j],z3.Implies(z3.And(zi(lo)<=j,j<zi(X.get(ex,st))),zb(is_default(ex,A.T,ex.sorts.fz(A.T,x)))),patterns=[x])
            out.append(('elements from %s to %s are default'%(lo,X.name),f))
    return out
@contract(V+r'resize\(unsigned long\)',hints=fill_hints)
def vec_resize(c):
    v=c.rd(c.this);n=c.p(0);el=elT(c);c.req(lt(n,BIG),'size is a possible allocation size')
    A=z3.Const(fresh_name('rs'),v.arr.sort());j=z3.Int(fresh_name('rj'))
    c.fact(z3.ForAll([j],z3.Implies(z3.And(0<=j,j<zi(n),j<zi(v.l)),z3.Select(A,j)==z3.Select(v.arr,j)),patterns=[z3.Select(A,j)]))
    f=is_default(c.ex,el,c.ex.sorts.fz(el,z3.Select(A,j)))
    c.fact(z3.ForAll([j],z3.Implies(z3.And(zi(v.l)<=j,j<zi(n)),zb(f)),patterns=[z3.Select(A,j)]))
    bump(c,c.this);c.wr(c.this,c.clsT,VecV(el,n,newcap(c,n),A))
@contract(V+r'pushBack\(.*\)')
def vec_push(c):
    v=c.rd(c.this);x=pval(c,0);el=elT(c)
    c.req(lt(v.l,BIG),'the size is below the allocation limit')
    leave_moved(c,0)
    bump(c,c.this);c.wr(c.this,c.clsT,VecV(el,add(v.l,1),newcap(c,add(v.l,1)),store(v.arr,v.l,c.ex.sorts.tz(el,x))))
@contract(V+r'popBack\(\)')
def vec_pop(c):
    v=c.rd(c.this);c.req(lt(0,v.l),'the vector is not empty')
    kill_el(c,v,sub(v.l,1))
    c.wr(c.this,c.clsT,VecV(v.elT,sub(v.l,1),v.cap,v.arr))
@contract(V+r'clear\(\)')
def vec_clear(c):
    v=c.rd(c.this);c.wr(c.this,c.clsT,VecV(v.elT,0,v.cap,v.arr))
@contract(V+r'(size|capacity|empty)\(\) const')
def vec_size(c):
    v=c.rd(c.this)
    if c.last=='empty': c.ret(c.T('bool'),eq(v.l,0))
    else: c.ret(c.T('unsigned long'),v.l if c.last=='size' else v.cap)
@contract(V+r'(begin|end|data)\(\)( const)?')
def vec_begin(c):
    v=c.rd(c.this);p=elem_ptr(c,v.l if c.last=='end' else 0)
    c.ret(c.T('void*'),Ptr(p.base,p.off,simp(eq(v.cap,0)) if isz(v.cap) else v.cap==0))
@contract(V+r'(front|back)\(\)( const)?')
def vec_front(c):
    v=c.rd(c.this);c.req(lt(0,v.l),'the vector is not empty')
    c.ret(c.T('void*'),elem_ptr(c,0 if c.last=='front' else sub(v.l,1)))
@contract(V+r'operator\[\]\(unsigned long\)( const)?')
def vec_index(c):
    v=c.rd(c.this);c.req(lt(c.p(0),v.l),'index inside the vector')
    c.ret(c.T('void*'),elem_ptr(c,c.p(0)))
def eq_hints(ex,g,entry,h,ints,arrs):
    """all elements before the counter are equal"""
    out=[];vs=[]
    for b,d in entry.mem.items():
        for o,(sz,T_,v) in d.cells.items():
            if isinstance(v,VecV): vs.append((b,v))
    for i,(b1,v1) in enumerate(vs):
        for b2,v2 in vs[i+1:]:
            if v1.arr.sort()!=v2.arr.sort(): continue
            for X in ints:
                def f(st,X=X,v1=v1,v2=v2):
                    j=z3.Int(fresh_name('ej'));x,y=z3.Select(v1.arr,j),z3.Select(v2.arr,j)
                    return z3.ForAll([j],z3.Implies(z3.And(0<=j,j<zi(X.get(ex,st))),elem_eq(ex,v1.elT,x,y)),patterns=[z3.Select(v1.arr,j)])
                out.append(('elements before %s are equal'%X.name,f))
    return out
@contract(V+r'operator==\(coil::Vector<.*> const&\) const',hints=eq_hints,alias=[{('same','p0'):0}])
def vec_eq(c):
    a,b=c.rd(c.this),c.rd(c.p(0));el=elT(c)
    if el.kind=='str':
        for v in (a,b):
            j=z3.Int(fresh_name('oj'));c.req(z3.ForAll([j],z3.Implies(z3.And(0<=j,j<zi(v.l)),zb(eq_ok(c.ex,el,z3.Select(v.arr,j)))),patterns=[z3.Select(v.arr,j)]),'the strings have contents (were not moved from)')
    c.ret(c.T('bool'),same_elems(c,el,a,b) if c.case(eq(a.l,b.l)) else False)
SAMEV={}
def samev(el,srt):
    k=el.name
    if k not in SAMEV: SAMEV[k]=z3.Function('SAMEV_'+k,z3.ArraySort(IntS,srt),z3.ArraySort(IntS,srt),IntS,BoolS)
    return SAMEV[k]
def same_elems(c,el,a,b):
    """two vectors of the same size: all elements equal (defining facts of SAMEV for these arguments)"""
    if a.arr.eq(b.arr): return True   # operator== of every element type is reflexive
    r=samev(el,c.ex.sorts.sort(el))(a.arr,b.arr,zi(a.l));w=fresh_int('w');j=z3.Int(fresh_name('vj'))
    f=elem_eq(c.ex,el,z3.Select(a.arr,j),z3.Select(b.arr,j))
    g=elem_eq(c.ex,el,z3.Select(a.arr,w),z3.Select(b.arr,w))
    c.fact(Implies(r,z3.ForAll([j],z3.Implies(z3.And(0<=j,j<zi(a.l)),zb(f)),patterns=[z3.Select(a.arr,j)])))
    c.fact(Implies(Not(r),And(le(0,w),lt(w,a.l),Not(g))))
    return r
