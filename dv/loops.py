"""Loop invariants: the locations a loop changes are found by running its body, generalised to fresh symbols, and related
by candidate invariants (generic ones and those a contract suggests); candidates that are not inductive are dropped
(Houdini), the rest become proof obligations at the loop entry and at every back edge."""
from core import *
from state import *
import exec as EX
import z3,time

class Leaf:
    __slots__=('b','off','sub','sym','entry','kind','T','name')
    def __init__(s,b,off,sub,sym,entry,kind,T): s.b=b;s.off=off;s.sub=sub;s.sym=sym;s.entry=entry;s.kind=kind;s.T=T;s.name='%s%s%s'%(b.name if b else '?','' if off in(None,0) else '+%s'%off,''.join('.%s'%(x if not isinstance(x,tuple) else x[0]) for x in sub))
    def get(s,ex,st): return leaf_get(ex,st,s)

def same(a,b):
    if a is b: return True
    if a is UNDEF or b is UNDEF: return False
    if isinstance(a,(int,bool)) and isinstance(b,(int,bool)): return a==b
    if isz(a) or isz(b):
        if isinstance(a,(Ptr,)) or isinstance(b,Ptr): return False
        x=a if isz(a) else (zb(a) if isinstance(a,bool) else zi(a) if isinstance(a,int) else None)
        y=b if isz(b) else (zb(b) if isinstance(b,bool) else zi(b) if isinstance(b,int) else None)
        if x is None or y is None: return False
        if x.eq(y): return True
        if x.sort()!=y.sort(): return False
        return z3.is_true(z3.simplify(x==y))
    if isinstance(a,Ptr) and isinstance(b,Ptr): return a.base is b.base and same(a.off,b.off) and same(a.null,b.null)
    if isinstance(a,FloatV) and isinstance(b,FloatV): return a.t.eq(b.t)
    if type(a)!=type(b): return False
    if isinstance(a,SVV): return same(a.b,b.b) and same(a.o,b.o) and same(a.l,b.l)
    if isinstance(a,StrV): return same(a.b,b.b) and same(a.l,b.l) and same(a.ok,b.ok)
    if isinstance(a,VecV): return same(a.l,b.l) and same(a.cap,b.cap) and a.arr.eq(b.arr)
    if isinstance(a,RecV): return all(same(x,y) for x,y in zip(a.vs,b.vs))
    if isinstance(a,ExpV): return same(a.ok,b.ok) and (a.ok is False or same(a.val,b.val)) and (a.ok is True or same(a.err,b.err))
    if isinstance(a,OptV): return same(a.has,b.has) and (a.has is False or same(a.val,b.val))
    if isinstance(a,UnspecV): return True
    if isinstance(a,VaList): return True
    if isinstance(a,MapV): return a.dom.eq(b.dom) and a.val.eq(b.val) and same(a.n,b.n)
    if isinstance(a,PInt): return same(a.p,b.p) and same(a.d,b.d)
    if isinstance(a,Agg): return len(a.vs)==len(b.vs) and all(same(x,y) for x,y in zip(a.vs,b.vs))
    return False

class Gen:
    """generalisation of the entry state"""
    def __init__(g,ex,st,depth): g.ex=ex;g.entry=st;g.leaves={};g.drop=set();g.facts=[];g.cellv={};g.arrs={};g.depth=depth;g.owned=[]
    def sym(g,b,off,sub,kind,T_,cur,mk):
        k=(b,off,sub)
        L=g.leaves.get(k)
        if L is None:
            s=mk();L=Leaf(b,off,sub,s,cur,kind,T_);g.leaves[k]=L
        return L.sym
    def gen(g,b,off,sub,T_,cur,new,ent):
        """value at the loop head covering cur and new"""
        if same(cur,new): return cur
        nm=(b.name+''.join('.%s'%(x if not isinstance(x,tuple) else x[0]) for x in sub))
        if cur is UNDEF or new is UNDEF: return UNDEF
        k=T_.kind if T_ is not None else None
        if isinstance(cur,UnspecV) or isinstance(new,UnspecV): return UnspecV(T_)
        if isinstance(cur,Ptr) or isinstance(new,Ptr):
            if not(isinstance(cur,Ptr) and isinstance(new,Ptr)): raise Unsupported('loop changes a pointer cell into something else')
            bs=cur.base;off_=cur.off;nl=cur.null
            if cur.base is not new.base:
                if isinstance(cur.base,TextBase) and isinstance(new.base,TextBase):
                    bs=TextBase(g.sym(b,off,sub+('base',),'int',None,cur.base.bid,lambda:g.ranged(nm+'.b',MAXLEN)))
                else: raise Unsupported('loop changes what %s points to: %r %r'%(nm,cur,new))
            if not same(cur.off,new.off):
                es=elsize(g.ex,g.entry,bs);eo=ent.off if isinstance(ent,Ptr) else cur.off
                qs=[div_exact(x,es) for x in (eo,new.off)] if es>1 else [None]
                if all(q is not None and q[1]==0 for q in qs) and es>1:
                    off_=mul(es,g.sym(b,off,sub+(('idx',es),),'int',None,qs[0][0],lambda:fresh_int(nm+'.idx')))
                else: off_=g.sym(b,off,sub+('off',),'int',None,eo,lambda:fresh_int(nm+'.off'))
            if not same(cur.null,new.null): nl=g.sym(b,off,sub+('null',),'bool',None,ent.null if isinstance(ent,Ptr) else cur.null,lambda:fresh_bool(nm+'.null'))
            return Ptr(bs,off_,nl)
        if k in('int',None):
            isb=isinstance(cur,bool) or (isz(cur) and z3.is_bool(cur))
            isb2=isinstance(new,bool) or (isz(new) and z3.is_bool(new))
            if isb and isb2: return g.sym(b,off,sub,'bool',T_,ent,lambda:fresh_bool(nm))
            if isb or isb2:
                raise Unsupported('loop mixes bool and int in '+nm)
            if isinstance(cur,(int,z3.ArithRef)) and isinstance(new,(int,z3.ArithRef)):
                w=g.width(b,off,T_)
                return g.sym(b,off,sub,'int',T_,ent,lambda:g.ranged(nm,1<<w))
            raise Unsupported('loop changes %s: %r -> %r'%(nm,cur,new))
        if k=='bool': return g.sym(b,off,sub,'bool',T_,ent,lambda:fresh_bool(nm))
        if k=='sv':
            r=SVV(*[x if same(x,y) else g.sym(b,off,sub+(n,),'int',None,e,lambda:fresh_int(nm+n)) for n,x,y,e in zip('bol',(cur.b,cur.o,cur.l),(new.b,new.o,new.l),(ent.b,ent.o,ent.l))])
            g.facts+=g.ex.sorts.inv(T_,r);return r
        if k=='str':
            bb=cur.b if same(cur.b,new.b) else g.sym(b,off,sub+('b',),'own',None,ent.b,lambda:fresh_int(nm+'.b'))
            ll=cur.l if same(cur.l,new.l) else g.sym(b,off,sub+('l',),'int',None,ent.l,lambda:fresh_int(nm+'.l'))
            ok=cur.ok if same(cur.ok,new.ok) else g.sym(b,off,sub+('ok',),'bool',None,ent.ok,lambda:fresh_bool(nm+'.ok'))
            r=StrV(bb,ll,ok);g.facts+=g.ex.sorts.inv(T_,r)
            if isz(bb): g.owned.append(bb)
            return r
        if k=='vec':
            el=g.ex.types.el(T_)
            ll=cur.l if same(cur.l,new.l) else g.sym(b,off,sub+('l',),'int',None,ent.l,lambda:fresh_int(nm+'.l'))
            cc=cur.cap if same(cur.cap,new.cap) else g.sym(b,off,sub+('cap',),'int',None,ent.cap,lambda:fresh_int(nm+'.cap'))
            aa=cur.arr if cur.arr.eq(new.arr) else g.sym(b,off,sub+('arr',),'arr',el,ent.arr,lambda:z3.Const(fresh_name(nm+'.arr'),cur.arr.sort()))
            r=VecV(el,ll,cc,aa)
            if getattr(cur,'raw',None) is not None and same(cc,cur.raw[2]) and getattr(new,'raw',None) is not None and new.raw[0] is cur.raw[0]:
                bd=cur.raw[4].clone();bd.arr[1]=aa
                bd.arr[3]=ll if el.owner else bd.arr[3]
                r.raw=(cur.raw[0],cur.raw[1],cur.raw[2],cur.raw[3],bd)
            g.facts+=g.ex.sorts.inv(T_,r);return r
        if k=='rec':
            return RecV(T_,[g.gen(b,off,sub+(i,),f[2],x,y,e) for i,(f,x,y,e) in enumerate(zip(T_.fields,cur.vs,new.vs,ent.vs))])
        if k=='exp' and same(cur.ok,new.ok) and cur.ok in(True,False):
            if cur.ok: return ExpV(T_,True,g.gen(b,off,sub+('val',),T_.Tt,cur.val,new.val,ent.val))
            return ExpV(T_,False,None,g.gen(b,off,sub+('err',),T_.Et,cur.err,new.err,ent.err))
        if k=='opt' and same(cur.has,new.has) and cur.has is True:
            return OptV(T_,True,g.gen(b,off,sub+('val',),T_.Tt,cur.val,new.val,ent.val))
        if k in('exp','opt','map'):
            kk=(b,off,sub)
            L=g.leaves.get(kk)
            if L is None:
                s_=g.ex.sorts.const(T_,nm);L=Leaf(b,off,sub,s_,ent,'obj',T_);g.leaves[kk]=L;g.facts+=g.ex.sorts.inv(T_,s_)
            return L.sym
        if k=='float': return g.sym(b,off,sub,'float',T_,ent,lambda:g.ex.sorts.const(T_,nm))
        raise Unsupported('loop changes %s of type %s'%(nm,T_.name))
    def width(g,b,off,T_):
        c=g.entry.mem[b].cells.get(off)
        return (c[0] if c else 8)*8 if T_ is None else T_.w
    def ranged(g,nm,hi):
        s=fresh_int(nm);g.facts+=[le(0,s),lt(s,hi)];return s

def elsize(ex,st,b):
    if isinstance(b,VecBase): return b.elT.size or 1
    if isinstance(b,Block) and b in st.mem and st.mem[b].arr is not None: return st.mem[b].arr[0].size or 1
    return 1
def leaf_get(ex,st,L):
    if L.off is None:
        d=st.mem[L.b]
        return {'arr':d.arr[1],'lo':d.arr[2],'hi':d.arr[3]}[L.sub[0]]
    c=st.mem[L.b].cells[L.off];v=c[2]
    for s in L.sub:
        if isinstance(v,Ptr) and isinstance(s,tuple):
            q=div_exact(v.off,s[1]);v=q[0] if q is not None else zi(v.off)/s[1];continue
        if isinstance(v,Ptr): v={'off':v.off,'null':v.null,'base':v.base.bid if s=='base' else None}[s];continue
        if isinstance(v,SVV): v={'b':v.b,'o':v.o,'l':v.l}[s];continue
        if isinstance(v,StrV): v={'b':v.b,'l':v.l,'ok':v.ok}[s];continue
        if isinstance(v,VecV): v={'l':v.l,'cap':v.cap,'arr':v.arr}[s];continue
        if isinstance(v,RecV): v=v.vs[s];continue
        if isinstance(v,(ExpV,OptV)): v=v.val if s=='val' else v.err;continue
    return v

def scalar(T_): return T_ is None or T_.kind in('int','bool','ptr','float')
def normalise(ex,st,ref):
    """folds the objects of st that ref has folded; list of states (forks)"""
    out=[];w=[st]
    while w:
        x=w.pop();snap=x.clone()
        try:
            for b,d in ref.mem.items():
                if b not in x.mem: continue
                for o,(sz,T_,v) in d.cells.items():
                    if scalar(T_): continue
                    c=x.mem[b].cells.get(o)
                    if c is not None and c[1] is not None and c[1].name==T_.name: continue
                    if isinstance(v,UnspecV): continue
                    # destroyed?
                    if c is None and not any(o<=q<o+sz for q in x.mem[b].cells): continue
                    x.reads=None
                    ex.h.read_cells(x,b,o,T_)
            out.append(x)
        except Fork as fk:
            a=snap.clone();a.assume(fk.cond);bb=snap;bb.assume(Not(fk.cond))
            w+=[y for y in (a,bb) if ex.feasible(y)]
        except (Infeasible,EX.PathEnd): pass
    return out
def fold_all(ex,st):
    """folds unfolded library objects where their invariant holds (so that the loop head sees whole objects)"""
    for (b,o),T_ in list(st.ghost.get('unf',{}).items()):
        if b not in st.mem: continue
        c=st.mem[b].cells.get(o)
        if c is not None and c[1] is not None and c[1].name==T_.name: continue
        t=st.clone();ex.strict+=1
        try: ex.h.read_cells(t,b,o,T_)
        except (Unsupported,Fork,Infeasible,EX.PathEnd,KeyError): continue
        finally: ex.strict-=1
        st=t
    return st

def build(ex,entry,g):
    st=entry.clone()
    for (b,o) in g.drop:
        if b in st.mem: st.w(b).cells.pop(o,None)
    for (b,o),v in g.cellv.items():
        if (b,o) in g.drop: continue
        d=st.w(b);c=d.cells[o];d.cells[o]=(c[0],c[1],v)
    for b,a in g.arrs.items():
        d=st.w(b);d.arr=list(a);d.ver=None
    fs={}
    for f in g.facts:
        if isz(f): fs.setdefault(f.get_id(),f)
    st.assume(*fs.values())
    # ownership: a text owned at the loop head is not one that was released, nor owned by anything else
    for x in g.owned:
        for q in st.dead: st.assume(ne(x,q))
    return st
def collect(ex,h,header,blocks):
    st=h.clone()
    cx=EX.LoopCtx(header,blocks,'collect');cx.exitst=[];st.frames[-1].loops[header]=cx
    ex.quiet+=1
    try: ex.drive([st],lambda s,v:None)
    finally: ex.quiet-=1
    return cx
def widen(ex,g,h,back):
    ch=False
    for b,d in list(h.mem.items()):
        if b not in back.mem:
            if b.kind=='heap' or b.kind=='stack': raise Unsupported('loop releases %r'%b)
            continue
        bd=back.mem[b]
        if d.arr is not None:
            if bd.arr is None: raise Unsupported('loop retypes %r'%b)
            if d.arr[0].name!=bd.arr[0].name: raise Unsupported('loop changes the element type of %r'%b)
            a=list(d.arr);ea=g.entry.mem[b].arr;cc=False
            for i,n in((1,'arr'),(2,'lo'),(3,'hi')):
                if not same(a[i],bd.arr[i]):
                    if i==1: a[1]=g.sym(b,None,('arr',),'arr',d.arr[0],ea[1],lambda:z3.Const(fresh_name(b.name+'.arr'),a[1].sort()))
                    else: a[i]=g.sym(b,None,(n,),'int',None,ea[i],lambda:g.ranged(b.name+'.'+n,MAXLEN))
                    cc=True
            if cc and not all(same(x,y) for x,y in zip(a[1:],d.arr[1:])): g.arrs[b]=a;ch=True
            continue
        if bd.arr is not None and not d.cells and b.kind=='heap':
            raise Retype(b,bd.arr[0])
        for o,(sz,T_,v) in d.cells.items():
            c=bd.cells.get(o)
            if c is None or c[0]!=sz or (not scalar(T_) and (c[1] is None or c[1].name!=T_.name)):
                if not scalar(T_) and T_.kind=='rec' and c is not None and c[1] is not None and isinstance(v,RecV) and T_.fields and c[1].name==T_.fields[0][2].name: raise Unfold(b,o)
                if not scalar(T_) and T_.owner and any(o<=q<o+sz for q in bd.cells): raise Unsupported('loop leaves %s in pieces'%T_.name)
                g.drop.add((b,o));ch=True;continue
            T2=T_ if T_ is not None else c[1]
            ent=g.entry.mem[b].cells.get(o)
            nv=g.gen(b,o,(),T2,v,c[2],ent[2])
            if nv is UNDEF: g.drop.add((b,o));ch=True;continue
            if not same(nv,v) or nv is not v and not same(nv,v): g.cellv[(b,o)]=nv;ch=True
    if len(back.trace)!=len(h.trace): raise Unsupported('loop with observable effects')
    return ch
class Unfold(Exception):
    def __init__(s,b,o): s.b=b;s.o=o
class Retype(Exception):
    def __init__(s,b,T_): s.b=b;s.T=T_

def enter(ex,st,fr,header,blocks):
    st=fold_all(ex,st)
    depth=len(st.frames)
    entry=st
    for tries in range(8):
        try: return enter1(ex,entry,header,blocks)
        except Unfold as r:
            entry=entry.clone();ex.h.unfold_cell(entry,r.b,r.o)
        except Retype as r:
            entry=entry.clone();ex.h.ensure_arr(entry,r.b,r.T)
    raise Unsupported('loop storage')
def enter1(ex,entry,header,blocks):
    g=Gen(ex,entry,len(entry.frames))
    id0=fresh_id();deadx=[]
    h=None
    for it in range(12):
        h=build(ex,entry,g)
        for L in g.leaves.values():
            # discovery only: the invariants are established afterwards
            if L.kind=='int' and isz(L.sym): h.assume(lt(L.sym,MAXLEN))
        for d in deadx:
            if not any(same(d,x) for x in h.dead): h.dead.append(d)
        cx=collect(ex,h,header,blocks)
        backs=[y for x in cx.backs for y in norm_quiet(ex,x,h)]
        ch=False
        for bk in backs:
            ch|=widen(ex,g,h,bk);
            h2=build(ex,entry,g)
            h=h2
        if ch: deadx=[]          # what earlier rounds found released may since have been generalised
        else:
          for bk in backs:
            for d in bk.dead:
                if isinstance(d,int) and d>=id0: continue
                if isz(d) and any(d.eq(x) for x in g.owned): continue
                if not any(same(d,x) for x in deadx) and not any(same(d,x) for x in entry.dead): deadx.append(d);ch=True
        if not ch: break
    else: raise Unsupported('loop does not stabilise')
    h=build(ex,entry,g);h.dead+= [d for d in deadx if not any(same(d,x) for x in h.dead)]
    epochs={}
    for bk in backs:
        for k,v in bk.epoch.items():
            if entry.epoch.get(k,0)!=v: epochs[k]=next(_ep)
    for k,v in epochs.items(): h.epoch[k]=v
    if not backs:
        # the body never comes back: a single pass
        h=entry.clone()
    cands=candidates(ex,g,entry,h,backs,header) if backs else []
    # keep those true at the entry
    keep=[];known=set()
    for desc,f in cands:
        try:
            k=f(h)
            if isz(k):
                if k.get_id() in known: continue
                known.add(k.get_id());g.keepalive=getattr(g,'keepalive',[]);g.keepalive.append(k)
        except Exception: pass
        try: c=f(entry)
        except (KeyError,Unsupported,AttributeError,TypeError): continue
        keep.append((desc,f,c))
    ok=hold(ex,entry,[(i,c,getattr(f,'full',False)) for i,(_,f,c) in enumerate(keep)])
    cands=[(d,f) for i,(d,f,c) in enumerate(keep) if i in ok]
    if ex.debug:
        for i,(d,f,c) in enumerate(keep):
            if i not in ok: print('    not at entry:',d)
    for rnd in range(10):
        hh=h.clone()
        for desc,f in cands: hh.assume(f(hh))
        if not cands and not backs: break
        cx=collect(ex,hh,header,blocks)
        bs=[y for x in cx.backs for y in norm_quiet(ex,x,h)]
        alive=dict(enumerate(cands))
        for bk in bs:
            cs=[]
            for i,(desc,f) in list(alive.items()):
                try: cs.append((i,f(bk),getattr(f,'full',False)))
                except (KeyError,Unsupported,AttributeError,TypeError): del alive[i]
            good=hold(ex,bk,cs)
            for i,_,_ in cs:
                if i not in good:
                    if ex.debug: print('    not inductive:',alive[i][0])
                    del alive[i]
        ok=[alive[i] for i in sorted(alive)]
        if len(ok)==len(cands): break
        cands=ok
    else: raise Unsupported('invariant search')
    if ex.debug: print('  LOOP',header,'in',entry.frames[-1].fn.dem[:60],'leaves',[l.name for l in g.leaves.values()],'kept',[d for d,_ in cands])
    measure=None
    if ex.terminates and backs:
        # a location that every iteration increases and that stays below a fixed bound, or that decreases
        for L in g.leaves.values():
            if L.kind!='int' or not isz(L.sym) or L.sub and L.sub[-1]=='base': continue
            tries=[]
            if any(getattr(f,'above',None) is L for d,f in cands): tries.append(lambda x,L=L:lt(L.sym,L.get(ex,x)))
            if not L.sub or L.sub[-1] in('l','cap'): tries.append(lambda x,L=L:lt(L.get(ex,x),L.sym))
            for f in tries:
                try:
                    if all(ex_valid(ex,bk,f(bk)) for bk in bs): measure=(L,f);break
                except (KeyError,Unsupported,AttributeError,TypeError): continue
            if measure: break
        if measure is None:
            e2=entry.clone();e2.ghost['loopabs']=True;ex.oblige(e2,False,'termination','no measure found for the loop at '+header)
        elif ex.debug: print('  MEASURE',measure[0].name)
    # obligations at the entry
    for desc,f in cands: ex.oblige(entry,f(entry),'loop-entry',desc)
    for desc,f in cands: h.assume(f(h))
    h.ghost['loopabs']=True
    cx=EX.LoopCtx(header,blocks,'final',cands)
    cx.final_check=None;cx.measure=measure;cx.href=h.clone();cx.g=g
    h.frames[-1].loops[header]=cx
    ex.loopn+=1
    return h
_ep=itertools.count(1000)
def norm_quiet(ex,x,h):
    ex.quiet+=1
    try: return normalise(ex,x,h)
    finally: ex.quiet-=1
QT=1200
def hold(ex,st,cs):
    """which of the formulas [(key, formula, full)] hold in st: the quantifier-free ones together, models showing which fail"""
    good=set();todo=[]
    for k,c,full in cs:
        c=val_of(c)
        if isinstance(c,bool):
            if c: good.add(k)
        elif has_quant(c): 
            if ex_valid(ex,st,c,full): good.add(k)
        else: todo.append((k,c,full))
    again=[]
    while len(todo)>1:
        r,s_=valid(st.pc,z3.And(*[zb(c) for _,c,_ in todo]),1500,2,True)
        if ex.t_end and time.time()>ex.t_end: raise EX.Timeout('time budget')
        if r is True: good|={k for k,_,_ in todo};todo=[];break
        if r is None: break
        m=s_.model();rest=[]
        for x in todo:
            v=m.eval(zb(x[1]),model_completion=True)
            if z3.is_false(v):
                if x[2]: again.append(x)
            else: rest.append(x)
        if len(rest)==len(todo): break
        todo=rest
    for k,c,full in todo+again:
        if ex_valid(ex,st,c,full): good.add(k)
    return good
def ex_valid(ex,st,c,full=False):
    c=val_of(c)
    if isinstance(c,bool): return c
    r,_=valid(st.pc,c,600,2,True) if not has_quant(zb(c)) else valid(st.pc,c,QT,2)
    if r is not True and full and not has_quant(zb(c)): r,_=valid(st.pc,c,QT,2)
    if ex.t_end and time.time()>ex.t_end: raise EX.Timeout('time budget')
    return r is True
def back_edge(ex,st,cx):
    """obligations at a back edge of the final run"""
    for x in normalise(ex,st,cx.href):
        for desc,f in cx.invs: ex.oblige(x,f(x),'loop-invariant',desc)
        if cx.measure: ex.oblige(x,cx.measure[1](x),'termination','%s moves towards its bound'%cx.measure[0].name)
        # what the loop was found not to change is unchanged
        for b,d in cx.href.mem.items():
            if b not in x.mem:
                ex.oblige(x,False,'loop-invariant','%s released in a loop'%b.name);continue
            bd=x.mem[b]
            if d.arr is not None:
                for i in(1,2,3):
                    if not same(d.arr[i],bd.arr[i]) and not any(L.b is b and L.off is None and L.sub[0]==('','arr','lo','hi')[i] for L in cx.g.leaves.values()):
                        ex.oblige(x,eq(d.arr[i],bd.arr[i]) if i>1 else d.arr[1]==bd.arr[1],'loop-invariant','storage unchanged')
                continue
            for o,(sz,T_,v) in d.cells.items():
                c=bd.cells.get(o)
                if c is None or c[0]!=sz: ex.oblige(x,False,'loop-invariant','%s+%s no longer holds its value'%(b.name,o));continue
                if not covered(cx.g,b,o,(),T_ if T_ is not None else c[1],v,c[2]): 
                    raise Unsupported('loop changes %s+%s unexpectedly'%(b.name,o))
        for o_b,d in x.mem.items():
            if o_b not in cx.href.mem and o_b.kind=='heap': ex.oblige(x,False,'leak','storage kept by a loop iteration: %s'%o_b.name)
        for b in x.mem:
            if b in cx.href.mem and b.kind=='stack':
                for o,(sz,T_,v) in x.mem[b].cells.items():
                    if T_ is not None and T_.owner and o not in cx.href.mem[b].cells and ex.h.owner_cells(x,b,o,sz): ex.oblige(x,False,'leak','object kept by a loop iteration: %s'%T_.name)
def covered(g,b,o,sub,T_,v,n):
    if (b,o,sub) in g.leaves or same(v,n): return True
    if v is UNDEF or isinstance(v,UnspecV): return True
    if isinstance(v,Ptr) and isinstance(n,Ptr):
        return (v.base is n.base or (b,o,sub+('base',)) in g.leaves) and (same(v.off,n.off) or (b,o,sub+('off',)) in g.leaves or any(k[:2]==(b,o) and k[2] and k[2][:-1]==sub and isinstance(k[2][-1],tuple) for k in g.leaves)) and (same(v.null,n.null) or (b,o,sub+('null',)) in g.leaves)
    if isinstance(v,SVV): return all(same(x,y) or (b,o,sub+(k,)) in g.leaves for k,x,y in zip('bol',(v.b,v.o,v.l),(n.b,n.o,n.l)))
    if isinstance(v,StrV): return all(same(x,y) or (b,o,sub+(k,)) in g.leaves for k,x,y in zip(('b','l','ok'),(v.b,v.l,v.ok),(n.b,n.l,n.ok)))
    if isinstance(v,VecV): return all(same(x,y) or (b,o,sub+(k,)) in g.leaves for k,x,y in zip(('l','cap','arr'),(v.l,v.cap,v.arr),(n.l,n.cap,n.arr)))
    if isinstance(v,RecV) and isinstance(n,RecV): return all(covered(g,b,o,sub+(i,),f[2],x,y) for i,(f,x,y) in enumerate(zip(v.ty.fields,v.vs,n.vs)))
    if isinstance(v,ExpV) and isinstance(n,ExpV): return same(v.ok,n.ok) and (covered(g,b,o,sub+('val',),v.ty.Tt,v.val,n.val) if v.ok is True else covered(g,b,o,sub+('err',),v.ty.Et,v.err,n.err))
    if isinstance(v,OptV) and isinstance(n,OptV): return same(v.has,n.has) and covered(g,b,o,sub+('val',),v.ty.Tt,v.val,n.val)
    return False

# ---------------------------------------------------------------- candidates
def candidates(ex,g,entry,h,backs,header):
    out=[]
    ints=[L for L in g.leaves.values() if L.kind=='int' and L.entry is not UNDEF and L.entry is not None]
    bools=[L for L in g.leaves.values() if L.kind=='bool']
    arrs=[L for L in g.leaves.values() if L.kind=='arr']
    G=lambda L:(lambda st:L.get(ex,st))
    def add_(d,f): out.append((d,f))
    for L in ints:
        e=L.entry
        add_('%s >= %s'%(L.name,e),lambda st,L=L,e=e:le(e,L.get(ex,st)))
        add_('%s is a possible size'%L.name,lambda st,L=L:lt(L.get(ex,st),MAXLEN))
        add_('%s <= %s'%(L.name,e),lambda st,L=L,e=e:le(L.get(ex,st),e))
    for L in ints:
        if L.sub and L.sub[-1]=='b' and isinstance(L.entry,int) and INPUT_ID_MAX<L.entry<2*INPUT_ID_MAX: add_('%s is storage of a literal'%L.name,lambda st,L=L:And(lt(INPUT_ID_MAX,L.get(ex,st)),lt(L.get(ex,st),2*INPUT_ID_MAX)))
    for L in bools:
        e=L.entry
        add_('%s == %s'%(L.name,e),lambda st,L=L,e=e:eq(L.get(ex,st),e))
    for L in g.leaves.values():
        if L.kind=='own': add_('%s is a text of its own'%L.name,lambda st,L=L:le(INPUT_ID_MAX,L.get(ex,st)))
    syms={L.sym.get_id():L for L in ints}
    # bounds occurring in the loop's own tests
    known={c.get_id() for c in entry.pc};bounds=set()
    for bk in backs:
        for c in bk.pc:
            if c.get_id() in known: continue
            for a,b in comparisons(c):
                for x,y in((a,b),(b,a)):
                    d,k=lin_parts(x)
                    if len(d)==1:
                        (kk,(t,co)),=d.items()
                        if kk not in syms or mentions(y,syms): continue
                        if val_of(simp(y)) in RANGES: continue
                        if abs(co)==1: bounds.add((kk,co,k,y))
                        else:
                            q=div_exact(sub(y,k),abs(co))
                            if q is not None and q[1]==0: bounds.add((kk,co//abs(co),0,zi(q[0])))
    seen=set()
    for kk,co,k,y in bounds:
        L=syms[kk]
        for off in(0,1,-1):
            bt=add(y,off-k) if co==1 else sub(k,add(y,off))
            key=(kk,str(bt))
            if key in seen: continue
            seen.add(key)
            ub=lambda st,L=L,bt=bt:le(L.get(ex,st),bt)
            ub.above=L
            add_('%s <= %s'%(L.name,bt),ub)
            add_('%s >= %s'%(L.name,bt),lambda st,L=L,bt=bt:le(bt,L.get(ex,st)))
            if off==0:
                add_('%s unchanged or <= %s'%(L.name,bt),lambda st,L=L,bt=bt:Or(eq(L.get(ex,st),L.entry),le(L.get(ex,st),bt)))
                add_('%s unchanged or >= %s'%(L.name,bt),lambda st,L=L,bt=bt:Or(eq(L.get(ex,st),L.entry),le(bt,L.get(ex,st))))
    for i,A in enumerate(ints):
        for B in ints[i+1:]:
            add_('%s <= %s'%(A.name,B.name),lambda st,A=A,B=B:le(A.get(ex,st),B.get(ex,st)))
            add_('%s <= %s'%(B.name,A.name),lambda st,A=A,B=B:le(B.get(ex,st),A.get(ex,st)))
            ds=set()
            for bk in backs:
                try: da,db=val_of(simp(zi(sub(A.get(ex,bk),A.sym)))),val_of(simp(zi(sub(B.get(ex,bk),B.sym))))
                except Exception: continue
                if isinstance(da,int) and isinstance(db,int) and da and db: ds.add((da,db))
            ds|={(1,1),(1,-1)}
            for da,db in ds:
                add_('%d*(%s-entry) == %d*(%s-entry)'%(db,A.name,da,B.name),lambda st,A=A,B=B,da=da,db=db:eq(mul(db,sub(A.get(ex,st),A.entry)),mul(da,sub(B.get(ex,st),B.entry))))
    # arrays: what is unchanged / copied, relative to the counters
    own=any(getattr(ex.hints(fr.fn),'own_arrays',False) for fr in entry.frames)      # the contract says all there is to say about arrays
    srcs=[]
    for L in arrs if not own else (): srcs.append((L.name+'@entry',L.entry))
    for b,d in entry.mem.items():
        if d.arr is not None: srcs.append((b.name,d.arr[1]))
        for o,(sz,T_,v) in d.cells.items():
            for nm,a in arrays_in(T_,v): srcs.append((b.name+nm,a))
    us=[];ids=set()
    for n,a in srcs:
        if a.get_id() not in ids: ids.add(a.get_id());us.append((n,a))
    j=z3.Int('lj')
    for A in arrs if not own else ():
        es=A.T.size or 1
        for n,E in us:
            if E.sort()!=A.sym.sort(): continue
            for X in ints:
                for sc in ({1,es} if X.sub and X.sub[-1]=='off' else {1,es} if False else {1}):
                    cnt=(lambda st,X=X,sc=sc:X.get(ex,st) if sc==1 else idiv(X.get(ex,st),sc))
                    add_('%s[0..%s) == %s'%(A.name,X.name,n),lambda st,A=A,E=E,cnt=cnt:arr_eq(A.get(ex,st),E,0,cnt(st)))
                    add_('%s[%s..) == %s'%(A.name,X.name,n),lambda st,A=A,E=E,cnt=cnt:arr_eq(A.get(ex,st),E,cnt(st),None))
            if E.get_id()==(A.entry.get_id() if isz(A.entry) else 0):
                el=next((L.entry for L in g.leaves.values() if L.b is A.b and L.off==A.off and L.sub[:-1]==A.sub[:-1] and L.sub[-1] in('l','hi')),None)
                if el is not None: add_('%s keeps its first %s elements'%(A.name,el),lambda st,A=A,E=E,el=el:arr_eq(A.get(ex,st),E,0,el))
    f=entry.frames[-1].fn
    if not ex.hints(f):
        for d,fn in scanned(ex,g,entry,backs,ints,syms,known): add_(d,fn)
    for fr in reversed(entry.frames):
        hs=ex.hints(fr.fn)
        if hs:
            for d,fn in hs(ex,g,entry,h,ints,arrs): add_(d,fn)
    return out
def scanned(ex,g,entry,backs,ints,syms,known,limit=8):
    """what the loop tested about the element at its counter has held for every element it has passed"""
    out=[];seen=set();allsyms=set(x.sym.get_id() for x in g.leaves.values() if isz(x.sym))
    for bk in backs:
        for c in bk.pc:
            if c.get_id() in known or z3.is_quantifier(c) or c.get_id() in seen: continue
            seen.add(c.get_id())
            sel=[];st=[c];vis=set();bad=False
            while st:
                x=st.pop()
                if x.get_id() in vis: continue
                vis.add(x.get_id())
                if z3.is_quantifier(x): bad=True;break
                if z3.is_select(x) and x.sort()==z3.IntSort() and x.arg(1).sort()==z3.IntSort() and mentions(x.arg(1),allsyms) and not mentions(x.arg(0),allsyms): sel.append(x)
                st.extend(x.children())
            if bad or not sel: continue
            for x in sel[:2]:
                d,k=lin_parts(x.arg(1));hit=[(kk,t,co) for kk,(t,co) in d.items() if mentions(t,allsyms)]
                if len(hit)!=1 or hit[0][2]!=1 or hit[0][0] not in syms: continue
                L=syms[hit[0][0]]
                if mentions(z3.substitute(c,(L.sym,z3.Int('scan!j'))),allsyms): continue
                r=simp(sub(x.arg(1),L.sym));j=z3.Int('scan!j')
                body=z3.simplify(z3.substitute(c,(L.sym,j-zi(r))));A=x.arg(0)
                def fn(st,L=L,r=r,body=body,A=A,j=j):
                    q=z3.Implies(z3.And(j>=zi(add(L.entry,r)),j<zi(add(L.get(ex,st),r))),body)
                    return z3.ForAll([j],q,patterns=[z3.Select(A,j)])
                out.append(('so far: %s'%str(body)[:80],fn))
                if len(out)>=limit: return out
    return out
RANGES={256,1<<16,1<<32,1<<60,1<<64,MAXLEN,MAXLEN+1,MAXLEN-1}      # what any value of the type satisfies
def idiv(x,n):
    q=div_exact(x,n)
    if q is not None and q[1]==0: return q[0]
    return zi(x)/n
def arr_eq(A,E,lo,hi):
    if A.eq(E): return True
    j=z3.Int(fresh_name('lj'))
    c=[j>=zi(lo)]
    if hi is not None: c.append(j<zi(hi))
    B=z3.Implies(z3.And(*c),z3.Select(A,j)==z3.Select(E,j))
    return z3.ForAll([j],B,patterns=[z3.Select(A,j)]) if not has_ite(A) else z3.ForAll([j],B,patterns=[z3.Select(E,j)]) if not has_ite(E) else z3.ForAll([j],B)
_ite={}
def has_ite(t):
    r=_ite.get(t.get_id())
    if r is None:
        r=z3.is_app(t) and (t.decl().kind() in(z3.Z3_OP_ITE,z3.Z3_OP_AND,z3.Z3_OP_OR,z3.Z3_OP_NOT) or any(has_ite(x) for x in t.children()))
        _ite[t.get_id()]=r=(r,t)
    return r[0]
def arrays_in(T_,v,nm=''):
    if isinstance(v,VecV): return [(nm,v.arr)]
    if isinstance(v,RecV): return [x for f,y in zip(v.ty.fields,v.vs) for x in arrays_in(f[2],y,nm+'.'+f[1])]
    return []
def comparisons(c):
    out=[];st=[c]
    while st:
        x=st.pop()
        if z3.is_quantifier(x): continue
        if z3.is_le(x) or z3.is_ge(x) or z3.is_lt(x) or z3.is_gt(x) or (z3.is_eq(x) and z3.is_int(x.arg(0))): out.append((x.arg(0),x.arg(1)))
        elif z3.is_and(x) or z3.is_or(x) or z3.is_not(x): st.extend(x.children())
        elif z3.is_distinct(x) and z3.is_int(x.arg(0)): out.append((x.arg(0),x.arg(1)))
    return out
def mentions(t,syms):
    st=[t];seen=set()
    while st:
        x=st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if x.get_id() in syms: return True
        st.extend(x.children())
    return False
