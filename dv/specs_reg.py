"""Contracts: functors, commands, the hash map, bindings (C04, C08, C10, C17, C20)."""
from contracts import *
import specs_text,specs_vec,specs_value,specs_fmt,specs_conv,specs_calls
from specs_text import *
from specs_value import rec_copy,rec_move,rec_massign,rec_dtor,released,same
from specs_calls import fld,at,get,put,push,CTX
MAP='coil::UnorderedMap<coil::String, coil::Bindings::Command>'
NODE=MAP+'::Node'
KVP='coil::KeyValuePair<coil::String, coil::Bindings::Command>'
CMD='coil::Bindings::Command'
INV=(1<<64)-1
Q=re.escape
R=r'(%s)'%'|'.join(Q(x) for x in (NODE,MAP,KVP,CMD,'coil::Bindings'))
L=r'(?:Node|UnorderedMap|KeyValuePair|Command|Bindings)'
contract(R+r'::%s\(\1&&\)'%L)(rec_move)
contract(R+r'::operator=\(\1&&\)')(rec_massign)
@contract(r'coil::Bindings::~Bindings\(\)')
def b_dtor(c):
    p=get(c,c.this,c.clsT,'m_lexer').vs[0]
    if not c.case(p.null): released(c,p)
    c.kill(c.this,c.clsT)
contract(R+r'::~%s\(\)'%L)(rec_dtor)
# ---------------------------------------------------------------- functors
@contract(r'coil::AnyFunctor::AnyFunctor\(coil::AnyFunctor&&\)')
def af_move(c):
    v=c.rd(c.p(0));c.init(c.this,c.clsT,v);c.wr(c.p(0),c.clsT,specs_value.move_out(c,c.clsT,v))
@contract(r'coil::AnyFunctor::~AnyFunctor\(\)')
def af_dtor(c):
    if c.mode=='spec':
        p=c.rd(c.this).vs[0]
        if not c.case(p.null): released(c,p)
    c.kill(c.this,c.clsT)
@contract(r'virtual:(coil::)?detail::AnyStorageBase:1')
def st_delete(c): released(c,c.this)
@contract(r'coil::AnyFunctor::arity\(\) const')
def af_arity(c): c.ret(c.T('unsigned long'),c.rd(c.this).vs[1].l)
@contract(r'coil::AnyFunctor::(parameterTypes|returnType)\(\) const')
def af_types(c):
    if c.last=='returnType': c.ret(c.T('coil::StringView'),c.rd(c.this).vs[2])
    else: q,t=at(c,c.this,c.clsT,'m_parameterTypes');c.ret(c.T('void*'),q)
# ---------------------------------------------------------------- the hash map
def NT(c): return c.T(NODE)
def nacc(ex,t,i):
    return acc(ex.sorts.sort(ex.types.get(NODE)),0,i,t)
def nfield(ex,name):
    return [f[1] for f in ex.types.get(NODE).fields].index(name)
def pair(ex,t): return nacc(ex,t,nfield(ex,'pair'))
def bucket(ex,t): return nacc(ex,t,nfield(ex,'bucket'))
def prev(ex,t): return nacc(ex,t,nfield(ex,'prev'))
def next_(ex,t): return nacc(ex,t,nfield(ex,'next'))
def key(ex,t): return ex.sorts.fz(ex.types.get(KVP),pair(ex,t)).vs[0]
def cmd(ex,t): return ex.sorts.fz(ex.types.get(KVP),pair(ex,t)).vs[1]
def ktxt(ex,t): return key(ex,t).txt
BUCKET=z3.Function('BUCKET',Txt,IntS,IntS)     # the bucket of a key: HT(key) % number of buckets
LINKED_=[]
def LINKED(ex,barr,B,narr,m):
    """the first m nodes are correctly linked into the buckets"""
    if not LINKED_: LINKED_.append(z3.Function('LINKED',z3.ArraySort(IntS,IntS),IntS,narr.sort(),IntS,BoolS))
    return LINKED_[0](barr,zi(B),narr,zi(m))
RANK0=z3.Const('rank0',z3.ArraySort(IntS,IntS))
class Nodes:
    """bucket, prev, next and key of the nodes of an array"""
    def __init__(s,ex,narr):
        g=lambda j:z3.Select(narr,j)
        s.bk,s.pv,s.nx,s.kt=(lambda j:bucket(ex,g(j))),(lambda j:prev(ex,g(j))),(lambda j:next_(ex,g(j))),(lambda j:ktxt(ex,g(j)))
        s.pats=lambda j:[g(j)]
class Columns:
    """the same as separate integer arrays"""
    def __init__(s,bk,pv,nx,kt):
        g=lambda a:(lambda j:z3.Select(a,j))
        s.bk,s.pv,s.nx,s.kt=g(bk),g(pv),g(nx),g(kt);s.pats=lambda j:[s.bk(j),s.pv(j),s.nx(j)]
def linked_def(ex,barr,B,narr,m,R):
    """definition of LINKED for a given rank of the nodes: list of (description, formula)"""
    i,j,b=z3.Ints('ri rj rb');S=z3.Select
    N=narr if isinstance(narr,(Nodes,Columns)) else Nodes(ex,narr);bk,pv,nx,kt=N.bk,N.pv,N.nx,N.kt
    B,m=zi(B),zi(m)
    inr=lambda k:z3.And(0<=k,k<m)
    pj,nj=pv(j),nx(j)
    fa=lambda v,f,p:z3.ForAll(v,f,patterns=p if isinstance(p,list) else [p])
    J=N.pats(j)
    out=[('there is a bucket',B>0)]
    out.append(('nodes are in the bucket of their key',fa([j],z3.Implies(inr(j),z3.And(bk(j)==BUCKET(kt(j),B),0<=bk(j),bk(j)<B)),J)))
    out.append(('links forward',fa([j],z3.Implies(inr(j),z3.Or(nj==INV,z3.And(inr(nj),bk(nj)==bk(j),pv(nj)==j,R[j]<R[nj]))),J)))
    out.append(('links back',fa([j],z3.Implies(inr(j),z3.If(pj==INV,S(barr,bk(j))==j,z3.And(inr(pj),bk(pj)==bk(j),nx(pj)==j))),J)))
    h=S(barr,b)
    out.append(('buckets point at their first node',fa([b],z3.Implies(z3.And(0<=b,b<B),z3.Or(h==INV,z3.And(inr(h),bk(h)==b,pv(h)==INV))),h)))
    hj=S(barr,bk(j))
    out.append(('every node is in its list',fa([j],z3.Implies(inr(j),z3.And(hj!=INV,R[hj]<=R[j])),J)))
    P=[z3.MultiPattern(x,y) for x in N.pats(i)[:1] for y in J[:1]]
    out.append(('lists are ordered',fa([i,j],z3.Implies(z3.And(inr(i),inr(j),bk(i)==bk(j),R[i]<R[j]),z3.And(nx(i)!=INV,R[nx(i)]<=R[j])),P)))
    out.append(('lists have no branches',fa([i,j],z3.Implies(z3.And(inr(i),inr(j),bk(i)==bk(j),i!=j),R[i]!=R[j]),P)))
    return out
def columns(ex,narr0,narr,fs,barr):
    """(columns of narr0, columns of narr, the quantifier-free facts fs over the columns): node records as integer arrays"""
    D=ex.sorts.sort(ex.types.get(NODE));names=('bucket','prev','next');ix={nfield(ex,n):n for n in names}
    col={n:z3.Const('col.'+n,z3.ArraySort(IntS,IntS)) for n in names};col['key']=z3.Const('col.key',z3.ArraySort(IntS,Txt))
    memo={};nacc_={D.accessor(0,i).get_id():n for i,n in ix.items()}
    def proj(A,n):
        k=(A.get_id(),n)
        if k not in memo:
            if A.eq(narr0): r=col[n]
            elif z3.is_app_of(A,z3.Z3_OP_STORE):
                v=A.arg(2);x=ktxt(ex,v) if n=='key' else nacc(ex,v,nfield(ex,n))
                r=z3.Store(proj(A.arg(0),n),rw(A.arg(1)),rw(z3.simplify(x)))
            else: raise Unsupported('nodes array %s'%A)
            memo[k]=(r,A)
        return memo[k][0]
    def rw(e):
        k=(e.get_id(),'')
        if k in memo: return memo[k][0]
        r=e
        if z3.is_app(e) and e.num_args():
            n=nacc_.get(e.decl().get_id()) if e.num_args()==1 else None
            if n is not None and z3.is_app_of(e.arg(0),z3.Z3_OP_SELECT): r=z3.Select(proj(e.arg(0).arg(0),n),rw(e.arg(0).arg(1)))
            elif n is not None and z3.is_app_of(e.arg(0),z3.Z3_OP_ITE):
                c,x,y=e.arg(0).children();d=e.decl();r=z3.If(rw(c),rw(z3.simplify(d(x))),rw(z3.simplify(d(y))))
            elif e.decl().eq(TVB):
                t=node_of(e.arg(0))
                if t is not None and ktxt(ex,t).txt_eq(e) if hasattr(StrV,'txt_eq') else (t is not None and z3.simplify(ktxt(ex,t)).eq(z3.simplify(e))): r=z3.Select(proj(t.arg(0),'key'),rw(t.arg(1)))
                else: r=e
            else:
                cs=[rw(c) for c in e.children()]
                if not all(a.eq(b) for a,b in zip(cs,e.children())): r=e.decl()(*cs)
        memo[k]=(r,e);return r
    def node_of(t):
        """the read of a node inside an accessor path"""
        while z3.is_app(t) and t.num_args()==1: t=t.arg(0)
        return t if z3.is_app_of(t,z3.Z3_OP_SELECT) and t.sort().eq(D) else None
    def any_array(e):
        return any(any(x.eq(y) for y in about) for x in consts(e))
    def consts(e):
        seen=set();w=[e];out=[]
        while w:
            x=w.pop()
            if x.get_id() in seen: continue
            seen.add(x.get_id())
            if z3.is_quantifier(x): w.append(x.body());continue
            if z3.is_const(x): out.append(x)
            w+=x.children()
        return out
    about=[x for x in consts(barr) if x.sort().eq(z3.ArraySort(IntS,IntS))]
    def nodes_left(e,q=False):
        seen=set();w=[e]
        while w:
            x=w.pop()
            if x.get_id() in seen: continue
            seen.add(x.get_id())
            if z3.is_quantifier(x): w.append(x.body());continue
            if x.sort().eq(D) or (q and x.sort().eq(narr0.sort())): return True
            w+=x.children()
        return False
    out=[]
    for f in fs:
        if not isz(f): continue
        if has_quant(f):
            if not nodes_left(f,True) and any_array(f): out.append(f)
            continue
        try: g=rw(z3.simplify(f))
        except Unsupported: continue
        if not nodes_left(g): out.append(g)
    C=lambda A:Columns(*[proj(A,n) for n in ('bucket','prev','next','key')])
    return C(narr0),C(narr),out,rw
def same_links(ex,n1,n2,m,j):
    a,b=z3.Select(n1,j),z3.Select(n2,j)
    return z3.Implies(z3.And(0<=j,j<zi(m)),z3.And(bucket(ex,a)==bucket(ex,b),prev(ex,a)==prev(ex,b),next_(ex,a)==next_(ex,b),ktxt(ex,a)==ktxt(ex,b)))
def frame_fact(ex):
    """the lemma 'frame': LINKED only depends on the links and keys of the nodes below m"""
    AS=z3.ArraySort(IntS,IntS);NS=z3.ArraySort(IntS,ex.sorts.sort(ex.types.get(NODE)))
    b=z3.Const('fb',AS);B,m,j=z3.Ints('fB fm fj');n1,n2=z3.Consts('fn1 fn2',NS);p,q=LINKED(ex,b,B,n1,m),LINKED(ex,b,B,n2,m)
    return z3.ForAll([b,B,m,n1,n2],z3.Implies(z3.And(p,z3.ForAll([j],same_links(ex,n1,n2,m,j))),q),patterns=[z3.MultiPattern(p,q)])
def frame_lemma(ex):
    import time
    t=time.time();AS=z3.ArraySort(IntS,IntS);NS=z3.ArraySort(IntS,ex.sorts.sort(ex.types.get(NODE)))
    b=z3.Const('fb',AS);B,m,j=z3.Ints('fB fm fj');n1,n2=z3.Consts('fn1 fn2',NS);out=[]
    # through columns: only the columns below m matter
    pre=[f for d,f in linked_def(ex,b,B,n1,m,RANK0)]+[z3.ForAll([j],same_links(ex,n1,n2,m,j),patterns=[z3.Select(n2,j)])]
    for d,g in linked_def(ex,b,B,n2,m,RANK0):
        s=z3.Solver();s.set('timeout',20000);s.add(*pre,z3.Not(g));out.append((d,s.check()==z3.unsat))
    return dict(lemma='LINKED depends only on the links and keys of the nodes',ok=all(x for d,x in out),t=round(time.time()-t,2),parts=[d for d,x in out if not x])
LEMMAS={'frame':frame_lemma}
def mp(c,p=None):
    """(value, buckets, nodes) of the map"""
    v=c.rd(p or c.this,c.T(MAP));return v,v.vs[0],v.vs[1]
def keys_ok(c,nd,n=None):
    j=z3.Int('kj');t=z3.Select(nd.arr,j)
    return z3.ForAll([j],z3.Implies(z3.And(0<=j,j<zi(nd.l if n is None else n)),zb(key(c.ex,t).ok)),patterns=[t])
def distinct_(c,nd):
    i,j=z3.Ints('di dj');a,b=z3.Select(nd.arr,i),z3.Select(nd.arr,j);n=zi(nd.l)
    return z3.ForAll([i,j],z3.Implies(z3.And(0<=i,i<j,j<n),ktxt(c.ex,a)!=ktxt(c.ex,b)),patterns=[z3.MultiPattern(a,b)])
def expand(c,bs,nd,m):
    """what LINKED means, when it is assumed"""
    c.opened=(bs,nd,m)
    if c.mode=='spec': c.fact(*[f for d,f in linked_def(c.ex,bs.arr,bs.l,nd.arr,m,RANK0)])
def mapok(c,bs,nd,opened=True):
    c.req(LINKED(c.ex,bs.arr,bs.l,nd.arr,nd.l),'the map is well linked')
    c.req(keys_ok(c,nd),'the keys have contents');c.req(distinct_(c,nd),'the keys differ')
    c.req(lt(nd.l,specs_vec.BIG),'the number of entries is below the allocation limit')
    if opened: expand(c,bs,nd,nd.l)
def ensure(c,m,rank=None,extra=()):
    """after the call the first m(nodes) nodes are well linked; the rank is the witness"""
    def rd(st):
        v=c.h.read_obj(st,c.this,c.T(MAP));return v.vs[0],v.vs[1]
    if rank is None:
        c.post.append(('the map is well linked',lambda st:LINKED(c.ex,rd(st)[0].arr,rd(st)[0].l,rd(st)[1].arr,m)));return
    cache={}
    def f(st,k):
        bs,nd=rd(st);key_=(bs.arr.get_id(),nd.arr.get_id(),len(st.pc))
        if key_ not in cache:
            cache.clear();b0,n0,m0=c.opened;C0,C1,fs,rw=columns(c.ex,n0.arr,z3.simplify(nd.arr),st.pc,bs.arr)
            y=st.clone();y.pc=fs+[x for d,x in linked_def(c.ex,b0.arr,b0.l,C0,m0,RANK0)]
            y.assume(*[z3.And(x>=0,x<=INV) for x in ()])
            R=rw(z3.simplify(rank(st,bs,nd)))
            cache[key_]=(y,linked_def(c.ex,rw(z3.simplify(bs.arr)),rw(zi(bs.l)),C1,rw(zi(m)),R),bs,nd)
        y,g=cache[key_][:2];return (y,g[k][1])
    for k,d in enumerate(('there is a bucket','nodes are in the bucket of their key','links forward','links back','buckets point at their first node','every node is in its list','lists are ordered','lists have no branches')):
        c.post.append((d,lambda st,k=k:f(st,k)))
def ensure_ok(c,what):
    for d,g in what:
        c.post.append((d,lambda st,g=g:g(c,c.h.read_obj(st,c.this,c.T(MAP)).vs[1])))
OK=[('the keys have contents',keys_ok),('the keys differ',distinct_)]
def first(c,nd,k):
    """the index of the node with the key, or the number of nodes"""
    i=z3.Function('FIRST_node',nd.arr.sort(),IntS,Txt,IntS)(nd.arr,zi(nd.l),k.txt);j=z3.Int('nj');t=z3.Select(nd.arr,j)
    c.fact(le(0,i),le(i,nd.l),z3.ForAll([j],z3.Implies(z3.And(0<=j,j<i),ktxt(c.ex,t)!=k.txt),patterns=[t]),Implies(lt(i,nd.l),ktxt(c.ex,sel(nd.arr,i))==k.txt))
    return i
def nodes(c,nd,l,at_,cap=None):
    """nodes whose pairs are at_(j); what links them is not prescribed (see LINKED)"""
    A=z3.Const(fresh_name('nodes'),nd.arr.sort());j=z3.Int('nj');t=z3.Select(A,j)
    c.fact(z3.ForAll([j],z3.Implies(z3.And(0<=j,j<zi(l)),pair(c.ex,t)==at_(j)),patterns=[t]))
    v=VecV(nd.elT,l,nd.cap if cap is None else cap,A);v.mask=('bucket','prev','next');return v
def buckets(c,bs,l=None,at_=None,cap=None):
    A=z3.Const(fresh_name('buckets'),bs.arr.sort());j=z3.Int('bj');t=z3.Select(A,j);l=bs.l if l is None else l
    if at_ is not None: c.fact(z3.ForAll([j],z3.Implies(z3.And(0<=j,j<zi(l)),t==at_(j)),patterns=[t]))
    else: c.fact(z3.ForAll([j],z3.Implies(z3.And(0<=j,j<zi(l)),z3.And(0<=t,t<=INV)),patterns=[t]))
    v=VecV(bs.elT,l,bs.cap if cap is None else cap,A)
    if at_ is None: v.mask=('*',)
    return v
def put_map(c,v,bs,nd,linked=None):
    T_=c.T(MAP);c.wr(c.this,T_,RecV(T_,[bs,nd,v.vs[2]]))
    if linked is not None and c.mode=='call': c.fact(LINKED(c.ex,bs.arr,bs.l,nd.arr,linked))
def member(c,i):
    q,t=at(c,c.this,c.T(MAP),'m_buckets' if i==0 else 'm_nodes');return q,t
def grown(c,el,l):
    k=fresh_int('cap');c.fact(le(l,k),lt(mul(el.size,k),MAXLEN));return k
M=Q(MAP)
@contract(r'unsigned long %s::computeBucketIndex<coil::String(View)?>\(coil::String(View)? const&\) const'%M)
def map_bucket(c):
    v,bs,nd=mp(c);k=c.rd(c.p(0),c.T(pref(c.ptype(0))))
    if isinstance(k,StrV): c.req(k.ok,'the key has contents')
    else: c.h.alive_text(c.st,k.b,'key')
    c.req(lt(0,bs.l),'there is a bucket')
    r=BUCKET(k.txt,zi(bs.l));c.fact(le(0,r),lt(r,bs.l))
    if c.mode=='spec': c.fact(r==HT(k.txt)%zi(bs.l))
    c.ret(c.T('unsigned long'),r)
def find_hints(ex,g,entry,h,ints,arrs):
    L=getattr(ex,'lk',None);out=[]
    if not L: return out
    nd,B,k,b=L;n=zi(nd.l)
    for X in ints:
        def f(st,X=X):
            x=zi(X.get(ex,st));return z3.Or(x==INV,z3.And(0<=x,x<n,bucket(ex,z3.Select(nd.arr,x))==b))
        def f2(st,X=X):
            x=zi(X.get(ex,st));j=z3.Int('hj');t=z3.Select(nd.arr,j)
            return z3.ForAll([j],z3.Implies(z3.And(0<=j,j<n,ktxt(ex,t)==k),z3.And(x!=INV,RANK0[x]<=RANK0[j])),patterns=[t])
        f.full=True
        out+=[('%s is a node of the bucket'%X.name,f),('the key is not before %s'%X.name,f2)]
    return out
@contract(r'unsigned long %s::findNodeIndex<coil::String(View)?>\(coil::String(View)? const&\) const'%M,hints=find_hints)
def map_findidx(c):
    v,bs,nd=mp(c);mapok(c,bs,nd);k=find_key(c);i=first(c,nd,k)
    if c.mode=='spec': b=BUCKET(k.txt,zi(bs.l));c.ex.lk=(nd,bs.l,k.txt,b)
    c.ret(c.T('unsigned long'),i if c.case(lt(i,nd.l)) else INV)
def find_key(c):
    k=c.rd(c.p(0),c.T(pref(c.ptype(0))))
    if isinstance(k,StrV): c.req(k.ok,'the key has contents')
    else: c.h.alive_text(c.st,k.b,'key')
    return k
def node_ptr(c,nd,i):
    q,t=member(c,1);p=specs_calls.el_ptr(c,q,t,i)
    return Ptr(p.base,p.off,simp(eq(nd.cap,0)) if isz(nd.cap) else nd.cap==0)
@contract(r'(?:%s::(?:Const)?Iterator )?%s::(?:find<coil::String(?:View)?>\(coil::String(?:View)? const&\)|end\(\)|begin\(\))( const)?'%(M,M))
def map_find(c):
    v,bs,nd=mp(c);T_=c.T(MAP+'::%sIterator'%('Const' if c.m.group(1) else ''))
    if c.last.startswith('begin'): i=0
    elif c.last.startswith('end'): i=nd.l
    else: mapok(c,bs,nd,False);i=first(c,nd,find_key(c))
    c.ret(T_,RecV(T_,[node_ptr(c,nd,i)]))
@contract(M+r'::size\(\) const')
def map_size(c): c.ret(c.T('unsigned long'),mp(c)[2].l)
def ins_hints(ex,g,entry,h,ints,arrs):
    L=getattr(ex,'lk',None);out=[]
    if not L: return out
    nd,m,b=L;m=zi(m)
    for X in ints:
        def f(st,X=X):
            x=zi(X.get(ex,st));return z3.And(0<=x,x<m,bucket(ex,z3.Select(nd.arr,x))==b)
        def f2(st,X=X):
            x=zi(X.get(ex,st));return z3.Or(x==INV,z3.And(0<=x,x<m,bucket(ex,z3.Select(nd.arr,x))==b))
        f.full=f2.full=True
        out+=[('%s is a node of the bucket'%X.name,f),('%s is a node of the bucket or none'%X.name,f2)]
    return out
@contract(M+r'::insertNode\(unsigned long\)',hints=ins_hints)
def map_insert_node(c):
    v,bs,nd=mp(c);m=c.p(0)
    c.req(lt(m,nd.l),'the index is a node');c.req(LINKED(c.ex,bs.arr,bs.l,nd.arr,m),'the nodes before are well linked');expand(c,bs,nd,m)
    c.req(keys_ok(c,nd),'the keys have contents')
    if c.mode=='spec':
        c.fact(lt(0,bs.l));c.ex.lk=(nd,m,BUCKET(ktxt(c.ex,sel(nd.arr,m)),zi(bs.l)))
        c.fact(lt(nd.l,specs_vec.BIG))
    n2=nodes(c,nd,nd.l,lambda j:pair(c.ex,z3.Select(nd.arr,j)));b2=buckets(c,bs)
    put_map(c,v,b2,n2,add(m,1))
    def rank(st,bs,nd):
        p=prev(c.ex,sel(nd.arr,m));return z3.Store(RANK0,zi(m),z3.If(p==INV,z3.IntVal(0),RANK0[p]+1))
    if c.mode=='spec': ensure(c,add(m,1),rank)
def reset_hints(ex,g,entry,h,ints,arrs):
    out=[]
    for A in arrs:
        if A.sym.sort()!=z3.ArraySort(IntS,IntS): continue
        for X in ints:
            def f(st,A=A,X=X):
                j=z3.Int('rj');t=z3.Select(A.get(ex,st),j);return z3.ForAll([j],z3.Implies(z3.And(0<=j,j<zi(X.get(ex,st))),t==INV),patterns=[t])
            out.append(('buckets before %s are empty'%X.name,f))
    return out
@contract(M+r'::resetBuckets\(\)',hints=reset_hints)
def map_reset(c):
    v,bs,nd=mp(c);b2=buckets(c,bs,at_=lambda j:z3.IntVal(INV))
    put_map(c,v,b2,nd)
    if c.mode=='call': c.fact(Implies(lt(0,bs.l),LINKED(c.ex,b2.arr,bs.l,nd.arr,0)))
    else:
        c.fact(lt(0,bs.l));c.opened=(bs,nd,0);ensure(c,0,lambda st,b,n:RANK0)
def rehash_hints(ex,g,entry,h,ints,arrs):
    L=getattr(ex,'lk',None);out=[]
    if not L: return out
    this,nd0,B=L;T_=ex.types.get(MAP)
    def cur(st):
        v=ex.h.read_obj(st.clone(),this,T_);return v.vs[0],v.vs[1]
    for X in ints:
        def f(st,X=X):
            bs,nd=cur(st);return LINKED(ex,bs.arr,bs.l,nd.arr,X.get(ex,st))
        out.append(('the nodes before %s are linked'%X.name,f))
    def f2(st):
        bs,nd=cur(st);j=z3.Int('rj');t=z3.Select(nd.arr,j)
        return z3.ForAll([j],z3.Implies(z3.And(0<=j,j<zi(nd0.l)),pair(ex,t)==pair(ex,z3.Select(nd0.arr,j))),patterns=[t])
    out.append(('the pairs are unchanged',f2))
    return out
@contract(M+r'::rehash\(unsigned long\)',hints=rehash_hints)
def map_rehash(c):
    v,bs,nd=mp(c);n=c.p(0);c.req(lt(n,specs_vec.BIG),'the number of buckets is a possible allocation size')
    c.req(keys_ok(c,nd),'the keys have contents');c.req(lt(nd.l,specs_vec.BIG),'the number of entries is below the allocation limit')
    B=simp(If(lt(0,n),n,1));B=val_of(B);q,t=member(c,0);specs_vec.bump(c,q)
    n2=nodes(c,nd,nd.l,lambda j:pair(c.ex,z3.Select(nd.arr,j)));b2=buckets(c,bs,B,cap=grown(c,bs.elT,B))
    put_map(c,v,b2,n2,nd.l)
    if c.mode=='spec': c.ex.lk=(c.this,nd,B);ensure(c,nd.l)
@contract(M+r'::UnorderedMap\(unsigned long, float\)')
def map_ctor(c):
    T_=c.clsT;n=c.p(0);c.req(lt(n,specs_vec.BIG),'the number of buckets is a possible allocation size')
    B=val_of(simp(If(lt(0,n),n,1)));UL=c.T('unsigned long');S=c.ex.sorts
    nd=VecV(NT(c),0,0,z3.Const(fresh_name('en'),z3.ArraySort(IntS,S.sort(NT(c)))))
    bs=buckets(c,VecV(UL,B,B,z3.Const(fresh_name('eb'),z3.ArraySort(IntS,IntS))),B,cap=grown(c,UL,B))
    c.init(c.this,T_,RecV(T_,[bs,nd,c.p(1)]))
    if c.mode=='call': c.fact(LINKED(c.ex,bs.arr,B,nd.arr,0))
    else: ensure(c,0)
@contract(M+r'::clear\(\)')
def map_clear(c):
    v,bs,nd=mp(c);c.req(lt(0,bs.l),'there is a bucket');b2=buckets(c,bs,at_=lambda j:z3.IntVal(INV))
    n2=VecV(nd.elT,0,nd.cap,nd.arr);put_map(c,v,b2,n2,0)
    if c.mode=='spec': ensure(c,0)
@contract(Q(KVP)+r'::KeyValuePair\(coil::String, %s\)'%Q(CMD))
def kvp_ctor(c):
    k,v=pval(c,0),pval(c,1);leave_moved(c,0);leave_moved(c,1);c.init(c.this,c.clsT,RecV(c.clsT,[k,v]))
@contract(r'%s::insertOrAssign\(coil::String, %s\)'%(M,Q(CMD)))
def map_ioa(c):
    v,bs,nd=mp(c);mapok(c,bs,nd,False);k,x=pval(c,0),pval(c,1);c.req(k.ok,'the key has contents')
    i=first(c,nd,k);S=c.ex.sorts;P=c.T(KVP);C=c.T(CMD);I=c.T(MAP+'::Iterator')
    leave_moved(c,0);leave_moved(c,1)
    if c.case(lt(i,nd.l)):
        e=RecV(P,[key(c.ex,sel(nd.arr,i)),x]);pt=S.tz(P,e)
        n2=nodes(c,nd,nd.l,lambda j:z3.If(j==zi(i),pt,pair(c.ex,z3.Select(nd.arr,j))));b2=bs
        put_map(c,v,b2,n2,nd.l);ix=i
    else:
        pt=S.tz(P,RecV(P,[k,x]));l=add(nd.l,1)
        for z in (0,1): q,t=member(c,z);specs_vec.bump(c,q)
        n2=nodes(c,nd,l,lambda j:z3.If(j==zi(nd.l),pt,pair(c.ex,z3.Select(nd.arr,j))),grown(c,nd.elT,l))
        B=fresh_int('B');c.fact(lt(0,B),lt(B,specs_vec.BIG));b2=buckets(c,bs,B,cap=grown(c,bs.elT,B));b2.anysize=True
        put_map(c,v,b2,n2,l);ix=nd.l
    if c.mode=='spec': c.fact(frame_fact(c.ex));ensure(c,n2.l);ensure_ok(c,OK)
    else: c.fact(keys_ok(c,n2),distinct_(c,n2))
    c.ret(I,RecV(I,[node_ptr(c,VecV(nd.elT,0,1,nd.arr),ix)]))
@contract(r'void coil::exchange<%s>\(%s&, %s&\)'%(Q(NODE),Q(NODE),Q(NODE)))
def node_swap(c):
    a,b=c.rd(c.p(0),NT(c)),c.rd(c.p(1),NT(c))
    if c.mode=='call': c.req(Not(ptr_eq(c.ex,c.st,c.p(0),c.p(1))),'the nodes differ')
    c.wr(c.p(0),NT(c),b);c.wr(c.p(1),NT(c),a)
@contract(r'void %s::erase<coil::StringView>\(coil::StringView const&\)'%M)
def map_erase(c):
    v,bs,nd=mp(c);mapok(c,bs,nd);k=find_key(c);i=first(c,nd,k)
    if not c.case(lt(i,nd.l)): return
    last=sub(nd.l,1);S=z3.Select
    n2=nodes(c,nd,last,lambda j:z3.If(j==zi(i),pair(c.ex,S(nd.arr,zi(last))),pair(c.ex,S(nd.arr,j))));b2=buckets(c,bs)
    c.h.kill_texts(c.st,NT(c),c.ex.sorts.fz(NT(c),sel(nd.arr,i)))
    put_map(c,v,b2,n2,last)
    if c.mode=='spec': ensure(c,last,lambda st,b,n:z3.Store(RANK0,zi(i),RANK0[zi(last)]));ensure_ok(c,OK)
    else: c.fact(keys_ok(c,n2),distinct_(c,n2))

# ---------------------------------------------------------------- bindings
B_='coil::Bindings'
AF='coil::AnyFunctor'
RES='coil::ExecutionResult'
INP='coil::ExecutionInput'
def names_ok(c,nd,n=None):
    """every command's name is its own key"""
    j=z3.Int('bj');t=z3.Select(nd.arr,j);k=key(c.ex,t);v=cmd(c.ex,t).vs[0]
    return z3.ForAll([j],z3.Implies(z3.And(0<=j,j<zi(nd.l if n is None else n)),zb(And(eq(v.b,k.b),eq(v.o,0),eq(v.l,k.l)))),patterns=[t])
def functors_ok(c,nd,n=None):
    """every registered functor holds a function"""
    j,f=z3.Ints('bj bf');t=z3.Select(nd.arr,j);v=cmd(c.ex,t).vs[1];x=z3.Select(v.arr,f)
    return z3.ForAll([j,f],z3.Implies(z3.And(0<=j,j<zi(nd.l if n is None else n),0<=f,f<zi(v.l)),zb(Not(functor(c.ex,x).vs[0].null))),patterns=[x])
def functor(ex,x): return ex.sorts.fz(ex.types.get(AF),x)
def vec_ok(c,v):
    f=z3.Int('bf');x=z3.Select(v.arr,f)
    return z3.ForAll([f],z3.Implies(z3.And(0<=f,f<zi(v.l)),zb(Not(functor(c.ex,x).vs[0].null))),patterns=[x])
BOK=OK+[("every command's name is its key",names_ok),('every functor holds a function',functors_ok)]
def commands(c,p=None):
    """(pointer to the map, its value, buckets, nodes) of the bindings"""
    q,t=at(c,p or c.this,c.T(B_),'m_commands');v=c.rd(q,t);return q,v,v.vs[0],v.vs[1]
def usable(c,p=None):
    """the representation invariant of Bindings"""
    q,v,bs,nd=commands(c,p);mapok(c,bs,nd,False)
    c.req(names_ok(c,nd),"every command's name is its key");c.req(functors_ok(c,nd),'every functor holds a function')
    if c.mode=='spec': c.fact(frame_fact(c.ex))
    return q,v,bs,nd
def keeps(c,p=None,new=None):
    """the invariant holds afterwards"""
    B=p or c.this
    if c.mode=='call':
        q,v,bs,nd=commands(c,B);c.fact(LINKED(c.ex,bs.arr,bs.l,nd.arr,nd.l),*[g(c,nd) for d,g in BOK]);return
    def rd(st):
        v=c.h.read_obj(st,at(c,B,c.T(B_),'m_commands')[0],c.T(MAP));return v.vs[0],v.vs[1]
    c.post.append(('the map is well linked',lambda st:LINKED(c.ex,rd(st)[0].arr,rd(st)[0].l,rd(st)[1].arr,rd(st)[1].l)))
    for d,g in BOK: c.post.append((d,lambda st,g=g:g(c,rd(st)[1])))
def put_commands(c,p,v,bs,nd):
    q,t=at(c,p,c.T(B_),'m_commands');c.wr(q,t,RecV(t,[bs,nd,v.vs[2]]))
@contract(r'coil::UniquePtr<coil::DefaultLexer> coil::makeUnique<coil::DefaultLexer>\(\)')
def make_lexer(c):
    T_=c.T('coil::UniquePtr<coil::DefaultLexer>')
    if c.mode=='spec':
        import specs_lex
        c.ret(T_,UnspecV(T_));p=c.sret;c.post.append(('it is a new default lexer with the default character sets',lambda st:specs_lex.default_lexer(c,st,c.h.read_obj(st,p,T_).vs[0])));return
    c.ret(T_,RecV(T_,[Ptr(OpaqueBase(z3.Int('new_lexer!%d'%len(c.st.trace)),'coil::DefaultLexer'),0)]));c.st.trace.append(('new lexer',))
@contract(r'coil::UniquePtr<coil::DefaultLexer>::operator coil::UniquePtr<coil::Lexer><coil::Lexer>\(\) &&')
def up_conv(c):
    v=c.rd(c.this).vs[0];T_=c.T('coil::UniquePtr<coil::Lexer>')
    c.wr(c.this,c.clsT,RecV(c.clsT,[NULL]));c.ret(T_,RecV(T_,[v]))
@contract(r'coil::Bindings::Bindings\(\)')
def b_ctor(c):
    T_=c.clsT;M_=c.T(MAP);UL=c.T('unsigned long');S=c.ex.sorts
    lx=Ptr(OpaqueBase(z3.Int('new_lexer!%d'%len(c.st.trace)),'coil::DefaultLexer'),0);c.st.trace.append(('new lexer',))
    nd=VecV(NT(c),0,0,z3.Const(fresh_name('en'),z3.ArraySort(IntS,S.sort(NT(c)))))
    n=fresh_int('B');c.fact(lt(0,n),lt(n,specs_vec.BIG))
    bs=buckets(c,VecV(UL,n,n,z3.Const(fresh_name('eb'),z3.ArraySort(IntS,IntS))),n,cap=grown(c,UL,n));bs.anysize=True
    c.init(c.this,T_,RecV(T_,[RecV(c.T('coil::UniquePtr<coil::Lexer>'),[lx]),RecV(M_,[bs,nd,UnspecV(c.T('float'))])]));keeps(c)
@contract(r'coil::Bindings::setLexer\(coil::UniquePtr<coil::Lexer>\)')
def b_lexer(c):
    v=pval(c,0);old=get(c,c.this,c.clsT,'m_lexer');T_=c.params[0][0]
    put(c,c.this,c.clsT,v,'m_lexer');c.wr(c.params[0][1],c.T(T_),old)      # the old lexer is left in the parameter, which releases it
@contract(r'coil::Bindings::operator\[\]\(coil::StringView\)')
def b_index(c):
    T_=c.T('coil::BindingProxy');c.ret(T_,RecV(T_,[c.this,c.p(0)]))
@contract(r'coil::BindingProxy::BindingProxy\(coil::Bindings&, coil::StringView\)')
def bp_ctor(c): c.init(c.this,c.clsT,RecV(c.clsT,[c.p(0),c.p(1)]))
def one_functor(c,f):
    el=c.T(AF);A=specs_vec.store(z3.Const(fresh_name('fv'),z3.ArraySort(IntS,c.ex.sorts.sort(el))),0,c.ex.sorts.tz(el,f))
    return VecV(el,1,grown(c,el,1),A)
def add_(c,B,name,fs,checked=False):
    """name is registered with the functors fs; returns a pointer to the command"""
    q,v,bs,nd=usable(c,B);c.h.alive_text(c.st,name.b,'name')
    if not checked: c.req(vec_ok(c,fs),'every functor holds a function')
    if c.mode=='call': c.st.ghost['added']=fs
    S=c.ex.sorts;S_=z3.Select
    i=first(c,nd,name);P=c.T(KVP);C=c.T(CMD);old=c.case(lt(i,nd.l))
    k=key(c.ex,sel(nd.arr,i)) if old else copy_of(c,name)
    pt=S.tz(P,RecV(P,[k,RecV(C,[SVV(k.b,0,k.l),fs])]));l=nd.l if old else add(nd.l,1)
    if old: n2=nodes(c,nd,l,lambda j:z3.If(j==zi(i),pt,pair(c.ex,S_(nd.arr,j))));b2=bs
    else:
        for z in ('m_buckets','m_nodes'): specs_vec.bump(c,at(c,q,c.T(MAP),z)[0])
        n2=nodes(c,nd,l,lambda j:z3.If(j==zi(nd.l),pt,pair(c.ex,S_(nd.arr,j))),grown(c,nd.elT,l))
        n=fresh_int('B');c.fact(lt(0,n),lt(n,specs_vec.BIG));b2=buckets(c,bs,n,cap=grown(c,bs.elT,n));b2.anysize=True
    n2.mask+=('pair.m_value.name',)        # given by the invariant: the name is the key
    put_commands(c,B,v,b2,n2);keeps(c,B)
    qn,tn=at(c,q,c.T(MAP),'m_nodes');p=specs_calls.el_ptr(c,qn,tn,i if old else nd.l)
    o,_=fld(c,NT(c),'pair','m_value');return c.h.canon(c.st,Ptr(p.base,add(p.off,o)))
@contract(r'coil::Bindings::add\(coil::StringView, coil::Vector<coil::AnyFunctor>\)')
def b_addv(c):
    fs=pval(c,1);leave_moved(c,1);c.ret(c.T('void*'),add_(c,c.this,c.p(0),fs))
@contract(r'coil::Bindings::add\(coil::StringView, coil::AnyFunctor\)')
def b_add(c):
    f=pval(c,1);c.req(Not(f.vs[0].null),'the functor holds a function');leave_moved(c,1);c.ret(c.T('void*'),add_(c,c.this,c.p(0),one_functor(c,f)))
@contract(r'coil::BindingProxy::operator=\(coil::(AnyFunctor|Vector<coil::AnyFunctor>)\)')
def bp_assign(c):
    v=pval(c,0);leave_moved(c,0);x=c.rd(c.this)
    if c.m.group(1)=='AnyFunctor': c.req(Not(v.vs[0].null),'the functor holds a function');v=one_functor(c,v)
    add_(c,x.vs[0],x.vs[1],v);c.ret(c.T('void*'),c.this)
def remove_(c,B,k):
    q,v,bs,nd=usable(c,B);c.h.alive_text(c.st,k.b,'name');i=first(c,nd,k)
    if not c.case(lt(i,nd.l)): return
    last=sub(nd.l,1);S=z3.Select
    n2=nodes(c,nd,last,lambda j:z3.If(j==zi(i),pair(c.ex,S(nd.arr,zi(last))),pair(c.ex,S(nd.arr,j))));b2=buckets(c,bs)
    c.h.kill_texts(c.st,NT(c),c.ex.sorts.fz(NT(c),sel(nd.arr,i)))
    put_commands(c,B,v,b2,n2);keeps(c,B)
@contract(r'coil::Bindings::remove\(coil::StringView\)')
def b_remove(c): remove_(c,c.this,c.p(0))
@contract(r'coil::BindingProxy::operator=\(decltype\(nullptr\)\)')
def bp_null(c):
    x=c.rd(c.this);remove_(c,x.vs[0],x.vs[1]);c.ret(c.T('void*'),c.this)
@contract(r'coil::Bindings::get\(coil::StringView\) const')
def b_get(c):
    q,v,bs,nd=usable(c);k=c.p(0);c.h.alive_text(c.st,k.b,'name');i=first(c,nd,k)
    if not c.case(lt(i,nd.l)): c.ret(c.T('void*'),NULL);return
    qn,tn=at(c,q,c.T(MAP),'m_nodes');p=specs_calls.el_ptr(c,qn,tn,i)
    o,_=fld(c,NT(c),'pair','m_value');c.ret(c.T('void*'),c.h.canon(c.st,Ptr(p.base,add(p.off,o))))
@contract(r'coil::Bindings::clear\(\)')
def b_clear(c):
    q,v,bs,nd=usable(c);c.req(lt(0,bs.l),'there is a bucket')
    put_commands(c,c.this,v,buckets(c,bs),VecV(nd.elT,0,nd.cap,nd.arr));keeps(c)
# ---------------------------------------------------------------- execution
@contract(r'virtual:(coil::)?detail::AnyStorageBase:2')
def st_invoke(c): invoked(c,c.this,c.params[0][1])
def invoked(c,storage,ctx):
    """the user's function runs: it may change the result of the call in any way, and nothing else of it"""
    I=c.T(INP);T_=c.T(RES);v=get(c,ctx,c.T(CTX),'input')
    c.ex.assumed.add('an invoked user function changes nothing of the call but its result')
    c.st.trace.append(('invoke',storage,(I,v)))
    after_call(c,ctx,len(c.st.trace))
def after_call(c,ctx,n):
    """the result of the call after user code ran; the user's code may throw (before a result is set)"""
    C_=c.T(CTX);R_=c.T(RES);r=outcome(c,R_,'result after call %d'%n)
    if c.ex.throws and throws(c,n):
        old=get(c,ctx,C_,'result');names=[f[1] for f in R_.fields]
        put(c,ctx,C_,RecV(R_,[o if m in('input','returnValue') else v for m,v,o in zip(names,r.vs,old.vs)]),'result')
        raise Thrown(n)
    put(c,ctx,C_,r,'result')
def throws(c,n):
    c.ex.assumed.add('an exception thrown by a user function is any object; one that is a std::exception has a message of its own')
    return c.case(z3.Bool('call %d throws'%n))
STDEXC='_ZTISt9exception'
def what(c,n):
    """the message of a standard exception"""
    b=z3.Int('what of exception %s'%n);z=z3.Int('end of what of exception %s'%n)
    c.fact(lt(0,b),lt(b,INPUT_ID_MAX),lt(BSZ(b),MAXLEN),le(0,z),lt(z,BSZ(b)),eq(z3.Select(CH(b),z),0));c.st.ghost[('nul',b.get_id())]=z
    return Ptr(TextBase(b),0,False)
@contract(r'virtual:std::exception:2')
def exc_what(c):
    p=c.h.canon(c.st,c.this) if isinstance(c.this,Ptr) else None
    if p is None or not isinstance(p.base,OpaqueBase): raise Unsupported('what() of %r'%(c.this,))
    n=re.fullmatch(r'exception (\d+)',str(p.base.term)).group(1);c.ret(c.T('char*'),what(c,n))
def outcome(c,T_,name):
    """an unknown but fixed value"""
    t=z3.Const(name,c.ex.sorts.sort(T_));v=c.ex.sorts.fz(T_,t);c.fact(*c.ex.sorts.inv(T_,v))
    for x in texts(c.ex,T_,v): c.fact(lt(0,x),lt(x,INPUT_ID_MAX))
    def built(v):
        if isinstance(v,StrV): c.fact(v.ok)
        elif isinstance(v,RecV): [built(x) for x in v.vs]
        elif isinstance(v,ExpV): built(v.val);built(v.err)
        elif isinstance(v,OptV): built(v.val)
    built(v);c.ex.assumed.add('user functions and user lexers leave no moved-from String in what they return')
    return v
@contract(r'coil::AnyFunctor::invokeTrampoline\(coil::detail::CallContext&\)')
def af_invoke(c):
    p=c.rd(c.this).vs[0];c.req(Not(p.null),'the functor holds a function');invoked(c,p,c.p(0))
JC=[None]
def JOINC(ex):
    """the first k of n numbers of arguments: a, b or c"""
    if JC[0] is None:
        el=ex.types.get(AF);srt=ex.sorts.sort(el);em=z3.Const('lit:',Txt);com=z3.Const('lit:'+b', '.hex(),Txt);or_=z3.Const('lit:'+b' or '.hex(),Txt)
        def body(A,n,k):
            j=JC[0](A,n,k);d=specs_fmt.DECU(functor(ex,z3.Select(A,k-1)).vs[1].l);p=JC[0](A,n,k-1)
            return [z3.Implies(k<=0,j==em),z3.Implies(k==1,j==d),z3.Implies(k>1,j==CAT(CAT(p,z3.If(k==n,or_,com)),d)),TLEN(j)>=0,z3.Not(specs_fmt.HASNUL(j))]
        JC[0]=SpecFn('JOINED_COUNTS',[z3.ArraySort(IntS,srt),IntS,IntS],Txt,body)
    return JC[0]
def exec_hints(ex,g,entry,h,ints,arrs):
    L=getattr(ex,'lk',None);out=[]
    if not L: return out
    fs,n=L;J=JOINC(ex)
    for X in ints:
        def f(st,X=X):
            j=z3.Int('hj');t=z3.Select(fs.arr,j);return z3.ForAll([j],z3.Implies(z3.And(0<=j,j<zi(X.get(ex,st))),zb(ne(functor(ex,t).vs[1].l,n))),patterns=[t])
        out.append(('no functor before %s takes the arguments'%X.name,f))
        for b,d in h.mem.items():
            for o,(sz,T_,v) in d.cells.items():
                if isinstance(v,StrV) and b.kind!='param':
                    out.append(('the text so far is that of the first %s functors'%X.name,lambda st,b=b,o=o,T_=T_,X=X:ex.h.read_cells(st,b,o,T_).txt==J(fs.arr,zi(fs.l),zi(X.get(ex,st)))))
                    out.append(('%s has contents'%b.name,lambda st,b=b,o=o,T_=T_:ex.h.read_cells(st,b,o,T_).ok))
    return out
def arity_first(c,fs,n):
    i=z3.Function('FIRST_arity',fs.arr.sort(),IntS,IntS,IntS)(fs.arr,zi(fs.l),zi(n));j=z3.Int('fj');t=z3.Select(fs.arr,j);ar=lambda t:functor(c.ex,t).vs[1].l
    c.fact(le(0,i),le(i,fs.l),z3.ForAll([j],z3.Implies(z3.And(0<=j,j<zi(i)),zb(ne(ar(t),n))),patterns=[t]),Implies(lt(i,fs.l),eq(ar(sel(fs.arr,i)),n)))
    return i
def run_(c,ctx):
    """the command named by the input of the call is executed"""
    q,v,bs,nd=usable(c);C_=c.T(CTX);inp=get(c,ctx,C_,'input');name,n=inp.vs[0],inp.vs[1].l
    c.req(lt(get(c,ctx,C_,'result','errors').l,specs_vec.BIG),'the number of errors is below the allocation limit')
    c.h.alive_text(c.st,name.b,'name')
    if c.case(eq(name.l,0)): report(c,ctx,message(c,[b'No function name is specified']));return
    i=first(c,nd,name);c.fact(lt(name.l,1<<31))
    if not c.case(lt(i,nd.l)): report(c,ctx,message(c,[b"No function '",specs_conv.as_piece(c,name),b"' is registered"]));return
    fs=cmd(c.ex,sel(nd.arr,i)).vs[1];c.fact(*c.ex.sorts.inv(c.T('coil::Vector<coil::AnyFunctor>'),fs));k=arity_first(c,fs,n)
    if c.mode=='spec': c.ex.lk=(fs,n)
    if c.case(lt(k,fs.l)):
        x=functor(c.ex,sel(fs.arr,k));c.fact(*c.ex.sorts.inv(c.T(AF),x))
        try: invoked(c,x.vs[0],ctx)
        except Thrown as t:
            # contained: one more error
            if not c.case(c.ex.is_a(t.n,STDEXC)): report(c,ctx,message(c,[b'Exception caught during execution']));return
            w=specs_fmt.cview(c,what(c,t.n));c.fact(lt(w.l,1<<31));c.ex.assumed.add(specs_fmt.LIMIT)
            report(c,ctx,message(c,[b'Exception caught during execution: ',specs_fmt.cut(c,w)]))
        return
    for z in (b'',b', ',b' or '): lit_txt(c,z)
    t=JOINC(c.ex)(fs.arr,zi(fs.l),zi(fs.l));c.fact(TLEN(t)>=0,z3.Not(specs_fmt.HASNUL(t)),TLEN(t)<(1<<31))
    report(c,ctx,message(c,[b"Wrong number of arguments to '",specs_conv.as_piece(c,name),b"': expected ",t,b', got ',specs_fmt.dec(c,n,64,False)]))
from specs_calls import report
@contract(r'coil::Bindings::execute\(coil::detail::CallContext&\)',hints=exec_hints)
def b_exec_ctx(c): run_(c,c.p(0))

def execute_(c,inp):
    """the result of executing the input: that of the call, with the input in it"""
    C_=c.T(CTX);b=c.st.new_block('call','stack',C_.size);p=Ptr(b,0)
    c.init(p,C_,RecV(C_,[inp,default_of(c,c.T(RES))]));run_(c,p)
    v=c.rd(p,C_);r=v.vs[1];i=[f[1] for f in r.ty.fields].index('input');vs=list(r.vs);vs[i]=v.vs[0]
    del c.st.mem[b];return RecV(r.ty,vs)
@contract(r'coil::Bindings::execute\(coil::ExecutionInput\)')
def b_exec_in(c):
    v=pval(c,0);leave_moved(c,0);c.ret(c.T(RES),execute_(c,v))
PARSED='coil::Expected<coil::ExecutionInput, coil::String>'
@contract(r'virtual:coil::Lexer:0')
def lexer_parse(c):
    q=c.params
    v=q[0][1] if len(q)==1 else None
    sv=c.h.mk_view(c.st,q[0][1],q[1][1]);c.ret(c.T(PARSED),parsed_(c,c.this,sv))
def parsed_(c,lx,sv):
    """what the lexer makes of the text"""
    c.h.alive_text(c.st,sv.b,'command');c.st.trace.append(('parse',lx,(c.T('coil::StringView'),sv)))
    v=outcome(c,c.T(PARSED),'lexer result %d'%len(c.st.trace));return v
@contract(r'coil::Bindings::execute\(coil::StringView\)')
def b_exec_sv(c):
    lx=get(c,c.this,c.clsT,'m_lexer').vs[0];c.req(Not(lx.null),'the bindings have a lexer');usable(c)
    v=parsed_(c,lx,c.p(0))
    if not c.case(v.ok):
        R_=c.T(RES);C_=c.T(CTX);b=c.st.new_block('call','stack',C_.size);p=Ptr(b,0)
        c.init(p,C_,RecV(C_,[default_of(c,c.T(INP)),default_of(c,R_)]));c.fact(lt(v.err.l,1<<31))
        report(c,p,message(c,[b'Syntax error: ',v.err]));r=c.rd(p,C_).vs[1];del c.st.mem[b]
        c.ret(R_,r);return
    c.ret(c.T(RES),execute_(c,v.val))
