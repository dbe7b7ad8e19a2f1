"""Symbolic heap: blocks with typed cells, arrays, text, abstract objects (fold/unfold)."""
from core import *
import z3

class Thrown(Exception):
    """the called function ends by throwing the exception n"""
    def __init__(s,n): s.n=n
class Fork(Exception):
    def __init__(s,cond): s.cond=cond

class BD:
    __slots__=('cells','arr','live','ver')
    def __init__(s): s.cells={};s.arr=None;s.live=True;s.ver=None
    def clone(s):
        b=BD();b.cells=dict(s.cells);b.arr=list(s.arr) if s.arr else None;b.live=s.live;b.ver=s.ver;return b

class Frame:
    __slots__=('fn','env','blk','idx','prev','retdst','allocas','va','unwind','loops')
    def __init__(s,fn): s.fn=fn;s.env={};s.blk=None;s.idx=0;s.prev=None;s.retdst=None;s.allocas=[];s.va=None;s.unwind=None;s.loops={}
    def clone(s):
        f=Frame(s.fn);f.env=dict(s.env);f.blk=s.blk;f.idx=s.idx;f.prev=s.prev;f.retdst=s.retdst;f.allocas=list(s.allocas);f.va=s.va;f.unwind=s.unwind;f.loops=dict(s.loops);return f

class State:
    def __init__(s,ex):
        s.ex=ex;s.pc=[];s.mem={};s._own=set();s.dead=[];s.trace=[];s.frames=[];s.alias={};s.epoch={};s.errno=0;s.exc=None;s.reads=None;s.ghost={}
    def clone(s):
        t=State(s.ex);t.pc=list(s.pc);t.mem=dict(s.mem);s._own=set();t._own=set();t.dead=list(s.dead);t.trace=list(s.trace)
        t.frames=[f.clone() for f in s.frames];t.alias=dict(s.alias);t.epoch=dict(s.epoch);t.errno=s.errno;t.exc=s.exc;t.reads=s.reads;t.ghost=dict(s.ghost)
        return t
    def assume(s,*fs):
        for f in fs:
            f=val_of(f)
            if f is True: continue
            s.pc.append(zb(f))
    def bd(s,b):
        return s.mem.get(b)
    def w(s,b):
        d=s.mem[b]
        if b not in s._own: d=d.clone();s.mem[b]=d;s._own.add(b)
        return d
    def new_block(s,name,kind,size,ty=None):
        b=Block(name,kind,size,ty);s.mem[b]=BD();s._own.add(b);b.depth=len(s.frames);return b

def epoch_of(st,p):
    return st.epoch.get((p.base,str(p.off)) if isinstance(p.base,Block) else (p.base,'*'),0)
class Heap:
    """operations on a state; ex supplies types/sorts/obligations"""
    def __init__(h,ex): h.ex=ex
    @property
    def ty(h): return h.ex.types
    @property
    def so(h): return h.ex.sorts
    # ---------- helpers
    def prove(h,st,c,timeout=1500):
        c=val_of(c)
        if isinstance(c,bool): return c
        return h.ex.valid(st,c,timeout)
    def decide(h,st,c):
        """concrete truth of c in st, or Fork"""
        c=val_of(c)
        if isinstance(c,bool): return c
        if h.prove(st,c): return True
        if h.prove(st,Not(c)): return False
        raise Fork(c)
    def alive_text(h,st,b,what):
        if isinstance(b,int) and INPUT_ID_MAX<b<2*INPUT_ID_MAX: return   # string literals are never released
        for d in st.dead:
            if isinstance(d,int) and isinstance(b,int):
                if d==b: h.ex.oblige(st,False,'use-after-free',what);return
            else: h.ex.oblige(st,ne(b,d),'use-after-free',what)
    # ---------- raw text ids
    def text_of_block(h,st,b):
        """id of an immutable snapshot of the bytes of a raw char block"""
        d=st.mem[b]
        if d.ver is None:
            k=fresh_id();d=st.w(b);d.ver=k
            st.assume(CH(k)==d.arr[1],BSZ(k)==zi(b.size))
            st.alias[k]=b
        return d.ver
    def as_text(h,st,p):
        """(blockid, off) of a char pointer"""
        b=p.base
        if isinstance(b,TextBase): return b.bid,p.off
        if isinstance(b,Block):
            d=st.mem.get(b)
            if d is None or not d.live: h.ex.oblige(st,False,'use-after-free','text in released memory');raise Infeasible()
            h.ensure_arr(st,b,h.ty.get('char'))
            return h.text_of_block(st,b),p.off
        if b is None:
            h.ex.oblige(st,False,'null-pointer','text pointer is null');raise Infeasible()
        raise Unsupported('text pointer into %r'%b)
    def ensure_arr(h,st,b,elT):
        d=st.mem[b]
        if d.arr is None:
            if d.cells:
                if elT.kind=='int' and elT.size==1: # single char cells -> array
                    arr=z3.Const(fresh_name('raw'),z3.ArraySort(IntS,IntS))
                    for o,(sz,T_,v) in d.cells.items():
                        if sz!=1: raise Unsupported('bytes of a typed block')
                        arr=store(arr,o,v)
                    d=st.w(b);d.arr=[elT,arr,0,0];d.cells={};return
                raise Unsupported('array access into typed block %r'%b)
            d=st.w(b);d.arr=[elT,z3.Const(fresh_name('raw'),z3.ArraySort(IntS,h.so.sort(elT))),0,0]
    # ---------- pointers
    def deref_checks(h,st,p,what):
        if p.base is None: h.ex.oblige(st,False,'null-pointer',what);raise Infeasible()
        if p.null is not False: 
            h.ex.oblige(st,Not(p.null),'null-pointer',what)
    def bounds(h,st,p,n,what):
        b=p.base
        if isinstance(b,Block) and b.size is not None:
            h.ex.oblige(st,And(le(0,p.off),le(add(p.off,n),b.size)),'bounds',what)
    def live(h,st,b,what):
        d=st.mem.get(b)
        if d is None or not d.live:
            h.ex.oblige(st,False,'use-after-free',what+' %r'%b);raise Infeasible()
        return d
    def canon(h,st,p):
        """TextBase of an unfolded string -> its raw block"""
        b=p.base
        if isinstance(b,TextBase):
            r=st.alias.get(b.bid if isinstance(b.bid,int) else b.bid.get_id())
            if r is not None and r in st.mem and st.mem[r].ver==(b.bid if isinstance(b.bid,int) else None): return Ptr(r,p.off,p.null)
            r=st.alias.get(('raw',b.bid if isinstance(b.bid,int) else b.bid.get_id()))
            if r is not None and r in st.mem: return Ptr(r,p.off,p.null)
        if isinstance(b,VecBase):
            # elements of a vector whose owner is currently unfolded
            if isinstance(b.owner.base,Block):
                k=('vec',b.owner.base,b.owner.off)
                r=st.alias.get(k)
                if r is not None and r in st.mem: return Ptr(r,p.off,p.null)
        if isinstance(b,Block) and b not in st.mem:
            f=st.alias.get(('folded',b))
            if f is not None: return h.canon(st,Ptr(f,p.off,p.null))
        return p
    # ---------- element paths
    def path_load(h,T_,v,off,size):
        """scalar of given size at byte offset off inside value v of type T_"""
        k=T_.kind
        if off==0 and T_.size==size and k in('int','bool','ptr','float'): return (T_,v)
        if k=='rec':
            if isinstance(v,UnspecV): raise Unsupported('field of unspecified')
            for (o,n,ft),x in zip(T_.fields,v.vs):
                if o<=off<o+(ft.size or 1): return h.path_load(ft,x,off-o,size)
        if k=='sv':
            if off==T_.po and size==8: return (h.ty.get('char*'),Ptr(TextBase(v.b),v.o))
            if off==T_.lo and size==8: return (h.ty.get('unsigned long'),v.l)
        raise Unsupported('scalar access at +%s(%s) of %s'%(off,size,T_.name))
    def path_obj(h,T_,v,off,want):
        if off==0 and T_.name==want.name: return v
        if off==0 and T_.kind==want.kind and T_.size==want.size and T_.kind in('int','bool','ptr'): return v
        if T_.kind=='rec':
            for (o,n,ft),x in zip(T_.fields,v.vs):
                if o<=off<o+(ft.size or 1): return h.path_obj(ft,x,off-o,want)
        if T_.kind=='exp':
            if off==T_.uoff or True:
                if v.ok is True: return h.path_obj(T_.Tt,v.val,off-T_.uoff,want)
                if v.ok is False: return h.path_obj(T_.Et,v.err,off-T_.uoff,want) if T_.Et.name==want.name else h.path_obj(T_.Et,v.err,off-T_.uoff,want)
        if T_.kind=='opt' and v.has is True: return h.path_obj(T_.Tt,v.val,off-T_.uoff,want)
        # a record consisting of the wanted object (e.g. Value <-> its vector)
        if want.kind=='rec' and off==0 and want.fields and len(want.fields)==1 and want.size==T_.size:
            f=want.fields[0];return RecV(want,[h.path_obj(T_,v,0,f[2])])
        raise Unsupported('object %s at +%s of %s'%(want.name,off,T_.name))
    def path_store(h,T_,v,off,T2,nv):
        """value v of type T_ with the part at off (type T2 or scalar size) replaced"""
        sz=T2 if isinstance(T2,int) else T2.size
        if off==0 and (T_ is T2 or (not isinstance(T2,int) and T_.name==T2.name)): return nv
        if off==0 and isinstance(T2,int) and T_.size==sz and T_.kind in('int','bool','ptr'):
            return i2b(nv) if T_.kind=='bool' else nv
        if off==0 and not isinstance(T2,int) and T_.kind==T2.kind and T_.size==sz and T_.kind in('int','bool','ptr'): return nv
        if T_.kind=='rec':
            for i,((o,n,ft),x) in enumerate(zip(T_.fields,v.vs)):
                if o<=off<o+(ft.size or 1):
                    r=RecV(T_,v.vs);r.vs[i]=h.path_store(ft,x,off-o,T2,nv);return r
        if T_.kind=='sv' and isinstance(T2,int):
            if off==T_.lo: return SVV(v.b,v.o,nv)
            raise Unsupported('partial store into a view')
        if not isinstance(T2,int) and T2.kind=='rec' and off==0 and T2.fields and len(T2.fields)==1 and T2.size==T_.size:
            return h.path_store(T_,v,0,T2.fields[0][2],nv.vs[0])
        raise Unsupported('store %s at +%s of %s'%(T2,off,T_.name))
    # ---------- cells
    def find_cell(h,d,off,size):
        c=d.cells.get(off)
        if c is not None and c[0]>=size: return off,c
        for o,c in d.cells.items():
            if o<=off and off+size<=o+c[0]: return o,c
        return None,None
    def coff(h,st,p):
        o=val_of(simp(p.off)) if isz(p.off) else p.off
        if isinstance(o,int): return o
        return None
    def set_cell(h,st,b,off,size,T_,v):
        d=st.w(b)
        for o in list(d.cells):
            c=d.cells[o]
            if o<off+size and off<o+c[0]:
                if o>=off and o+c[0]<=off+size: del d.cells[o]
                else:
                    h.unfold_cell(st,b,o);d=st.w(b)
                    h.set_cell(st,b,off,size,T_,v);return
        d=st.w(b)
        d.cells[off]=(size,T_,v)
    def unfold_cell(h,st,b,off):
        size,T_,v=st.mem[b].cells[off]
        if T_ is None: raise Unsupported('partial access to scalar cell %s+%s'%(b,off))
        k=T_.kind
        if isinstance(v,UnspecV):
            v=h.so.const(T_,'unspec');st.assume(*h.so.inv(T_,v))
            if T_.kind=='str': v.ok=fresh_bool('ok')
        if k=='rec':
            d=st.w(b);del d.cells[off]
            for (o,n,ft),x in zip(T_.fields,v.vs):
                if ft.size: d.cells[off+o]=(ft.size,ft,x)
            return
        if k=='sv':
            d=st.w(b);del d.cells[off]
            d.cells[off+T_.po]=(8,h.ty.get('char*'),h.canon(st,Ptr(TextBase(v.b),v.o)));d.cells[off+T_.lo]=(8,h.ty.get('unsigned long'),v.l);return
        if k=='opt':
            has=h.decide(st,v.has)
            d=st.w(b);del d.cells[off]
            d.cells[off+T_.boff]=(1,h.ty.get('bool'),has)
            if has: d.cells[off+T_.uoff]=(T_.Tt.size,T_.Tt,v.val)
            return
        if k=='exp':
            ok=h.decide(st,v.ok)
            d=st.w(b);del d.cells[off]
            d.cells[off+T_.boff]=(1,h.ty.get('bool'),ok)
            t=T_.Tt if ok else T_.Et
            d.cells[off+T_.uoff]=(t.size,t,v.val if ok else v.err)
            return
        if k in('vec','str'):
            UL=h.ty.get('unsigned long')
            L=h.ty.get('coil::Buffer')
            fo={n:o for o,n,_ in L.fields}
            st.ghost['unf']={**st.ghost.get('unf',{}),(b,off):T_}
            raw=getattr(v,'raw',None)
            if raw is not None and raw[0] not in st.mem:
                blk,p,cap,ch,bd=raw
                st.mem[blk]=bd;st._own.discard(blk)
                if k=='vec':
                    size=count=v.l;st.alias[('vec',b,off)]=blk
                else:
                    size=add(v.l,1) if v.ok is True else 0;count=0
                    key=v.b if isinstance(v.b,int) else v.b.get_id()
                    st.alias[key]=blk;st.alias[('raw',key)]=blk
            elif k=='vec':
                sz=v.elT.size
                blk=st.new_block('buf','heap',mul(v.cap,sz));dd=st.mem[blk]
                dd.arr=[v.elT,v.arr,0,v.l]
                ch=fresh_int('chunk')
                st.assume(Or(eq(ch,sz),And(eq(ch,0),eq(v.cap,0))))
                st.alias[('vec',b,off)]=blk
                p=Ptr(blk,0,simp(eq(v.cap,0)) if isz(eq(v.cap,0)) else eq(v.cap,0));cap=v.cap;size=v.l;count=v.l
                h.ex.note_raw(st,blk,b,off)
            else:
                cap=fresh_int('cap')
                ok=v.ok
                st.assume(lt(cap,MAXLEN),Implies(ok,lt(v.l,cap)),le(0,cap))
                blk=st.new_block('strbuf','heap',cap);dd=st.mem[blk]
                dd.arr=[h.ty.get('char'),CH(zi(v.b)),0,0]
                # the identity of the text while it is unmodified
                if isinstance(v.b,int): dd.ver=v.b;st.alias[v.b]=blk
                else: dd.ver=v.b;st.alias[v.b.get_id()]=blk
                st.alias[('raw',v.b if isinstance(v.b,int) else v.b.get_id())]=blk
                ch=fresh_int('chunk')
                st.assume(Or(eq(ch,1),And(eq(ch,0),eq(cap,0))))
                st.assume(Implies(ok,eq(BSZ(zi(v.b)),cap)) if False else True)
                p=Ptr(blk,0,simp(eq(cap,0)))
                size=If(ok,add(v.l,1),0) if not isinstance(ok,bool) else (add(v.l,1) if ok else 0);count=0
                st.assume(Implies(ok,eq(z3.Select(CH(zi(v.b)),zi(v.l)),0)))
                h.ex.note_raw(st,blk,b,off)
            d=st.w(b);del d.cells[off]
            d.cells[off+fo['m_ptr']]=(8,h.ty.get('char*'),p)
            d.cells[off+fo['m_capacity']]=(8,UL,cap);d.cells[off+fo['m_chunkSize']]=(8,UL,ch)
            d.cells[off+fo['m_size']]=(8,UL,size)
            if 'm_constructedObjectsCount' in fo: d.cells[off+fo['m_constructedObjectsCount']]=(8,UL,count)
            return
        raise Unsupported('unfold '+T_.name)
    # ---------- scalar load/store
    def conv_out(h,T_,v,irty):
        """typed cell value -> IR value"""
        if T_ is not None and T_.kind=='bool' and irty.k=='i' and irty.w==8: return b2i(v)
        if T_ is None and irty.k=='i' and irty.w==8 and (isinstance(v,bool) or z3.is_bool(v) if isz(v) else isinstance(v,bool)): return b2i(v)
        if irty.k=='i' and irty.w==64 and isinstance(v,Ptr): return PInt(v)
        if irty.k=='ptr' and isinstance(v,PInt): return v.p if v.d==0 else v.p.plus(v.d)
        if irty.k=='i' and irty.w==1: return i2b(v) if not (isz(v) and z3.is_bool(v)) else v
        return v
    def load(h,st,p,irty,size):
        h.deref_checks(st,p,'load')
        p=h.canon(st,p);b=p.base
        if isinstance(b,TextBase):
            if size!=1: raise Unsupported('wide load from text')
            h.alive_text(st,b.bid,'load from text')
            h.ex.oblige(st,And(le(0,p.off),lt(p.off,BSZ(zi(b.bid)))),'bounds','read outside the text')
            r=h.ex.text_char(st,b.bid,p.off);return r
        if isinstance(b,Block):
            d=h.live(st,b,'load')
            if d.arr is not None: return h.arr_load(st,p,irty,size)
            off=h.coff(st,p)
            if off is None:
                if not d.cells or b.kind=='heap': h.ensure_arr(st,b,h.ex.elem_hint(size));return h.arr_load(st,p,irty,size)
                raise Unsupported('symbolic offset into %r'%b)
            h.bounds(st,p,size,'load')
            while True:
                d=st.mem[b]
                o,c=h.find_cell(d,off,size)
                if c is None:
                    h.ex.oblige(st,False,'uninitialized','read of uninitialised or destroyed storage %s+%s'%(b.name,off));raise Infeasible()
                if st.reads is not None: st.reads.add((b,o))
                if o==off and c[0]==size and (c[1] is None or c[1].kind in('int','bool','ptr','float')):
                    if c[2] is UNDEF:
                        h.ex.oblige(st,False,'uninitialized','read of uninitialised storage %s+%s'%(b.name,off));raise Infeasible()
                    return h.conv_out(c[1],c[2],irty)
                h.unfold_cell(st,b,o)
        if isinstance(b,VecBase):
            T_,v=h.elem(st,p);off=v[1]
            ft,x=h.path_load(T_,v[0],off,size)
            return h.conv_out(ft,x,irty)
        if isinstance(b,NodeBase):
            T_,v,off=h.node(st,p)
            ft,x=h.path_load(T_,v,off,size);return h.conv_out(ft,x,irty)
        if isinstance(b,OpaqueBase):
            off=h.coff(st,p)
            if off==0 and size==8: return VTable(b,b.cls)
        if isinstance(b,GlobalBase): return h.ex.load_global(st,b,p.off,irty,size)
        raise Unsupported('load from %r'%(p,))
    def vec_type(h,st,owner,el):
        """the type of the vector object at owner"""
        d=st.mem.get(owner.base) if isinstance(owner.base,Block) else None
        cell=d.cells.get(owner.off) if d is not None and isinstance(owner.off,int) else None
        if cell is not None and cell[1] is not None and cell[1].name.startswith('std::vector<'): return cell[1]
        return h.ex.types.get('coil::Vector<%s>'%el.name)
    def elem(h,st,p):
        """VecBase pointer -> (elT,(value,offset))"""
        b=p.base
        ov=h.read_obj(st,b.owner,h.vec_type(st,b.owner,b.elT))
        cur=epoch_of(st,b.owner)
        if cur!=b.epoch: 
            h.ex.oblige(st,False,'use-after-free','pointer into a vector that was reallocated');raise Infeasible()
        q=div_exact(p.off,b.elT.size)
        if q is None: raise Unsupported('element offset %s'%p.off)
        i,r=q
        h.ex.oblige(st,And(le(0,i),lt(i,ov.l)),'bounds','vector element index')
        t=sel(ov.arr,i);v=h.so.fz(b.elT,t)
        st.assume(*h.so.inv(b.elT,v))
        return b.elT,(v,r)
    def concrete(h,st,T_,v):
        """arbitrary valid values in place of unspecified parts"""
        if isinstance(v,UnspecV):
            v=h.so.const(T_,'unspec');st.assume(*h.so.inv(T_,v))
            if T_.kind=='str': v.ok=fresh_bool('ok')
            return v
        if isinstance(v,RecV): return RecV(T_,[h.concrete(st,f[2],x) for f,x in zip(T_.fields,v.vs)])
        return v
    def node(h,st,p):
        b=p.base
        mv=h.read_obj(st,b.owner,b.mapT)
        if st.epoch.get((b.owner.base,str(b.owner.off)),0)!=b.epoch:
            h.ex.oblige(st,False,'use-after-free','iterator into a map that changed');raise Infeasible()
        t=z3.simplify(z3.Select(mv.val,b.key)) if False else sel(mv.val,b.key)
        v=h.so.fz(b.mapT.Vt,t);st.assume(*h.so.inv(b.mapT.Vt,v))
        o=h.coff(st,p)
        if o is None: raise Unsupported('node offset')
        return b.mapT.Vt,v,o-b.mapT.voff
    def node_store(h,st,p,T2,nv):
        b=p.base;T_,v,off=h.node(st,p)
        nv=h.path_store(T_,v,off,T2,nv)
        mv=h.read_obj(st,b.owner,b.mapT)
        h.write_obj(st,b.owner,b.mapT,MapV(mv.ty,mv.dom,z3.Store(mv.val,b.key,h.so.tz(T_,nv)),mv.n))
    def elem_store(h,st,p,T2,nv):
        b=p.base;T_,(v,off)=h.elem(st,p)
        if not isinstance(T2,int): nv=h.concrete(st,T2,nv)
        nv=h.path_store(T_,v,off,T2,nv)
        i,_=div_exact(p.off,b.elT.size)
        vt=h.vec_type(st,b.owner,b.elT)
        ov=h.read_obj(st,b.owner,vt)
        h.write_obj(st,b.owner,vt,VecV(ov.elT,ov.l,ov.cap,z3.Store(ov.arr,zi(i),h.so.tz(T_,nv))))
    def arr_idx(h,st,p,d,what):
        q=div_exact(p.off,d.arr[0].size)
        if q is None: raise Unsupported('array offset %s / %s'%(p.off,d.arr[0].size))
        return q
    def arr_load(h,st,p,irty,size):
        b=p.base;d=st.mem[b]
        i,r=h.arr_idx(st,p,d,'load')
        h.bounds(st,p,size,'array read')
        elT=d.arr[0]
        if elT.owner: h.ex.oblige(st,And(le(d.arr[2],i),lt(i,d.arr[3])),'lifetime','read of an element that is not constructed')
        if st.reads is not None: st.reads.add((b,'arr'))
        v=h.so.fz(elT,sel(d.arr[1],i));st.assume(*h.so.inv(elT,v))
        ft,x=h.path_load(elT,v,r,size);return h.conv_out(ft,x,irty)
    def store(h,st,p,v,irty,size):
        h.deref_checks(st,p,'store')
        p=h.canon(st,p);b=p.base
        if isinstance(b,TextBase): p=h.raw_text(st,p);b=p.base
        if isinstance(b,Block):
            d=h.live(st,b,'store')
            h.bounds(st,p,size,'store')
            off=h.coff(st,p)
            if d.arr is None and off is None: h.ensure_arr(st,b,h.ex.elem_hint(size));d=st.mem[b]
            if d.arr is not None:
                i,r=h.arr_idx(st,p,d,'store');d=st.w(b);elT=d.arr[0]
                if r==0 and elT.size==size and elT.kind in('int','bool','ptr'):
                    if elT.kind=='bool': v=i2b(v)
                    d.arr[1]=store(d.arr[1],i,h.so.tz(elT,v))
                else:
                    ov=h.so.fz(elT,sel(d.arr[1],i))
                    d.arr[1]=store(d.arr[1],i,h.so.tz(elT,h.path_store(elT,ov,r,size,v)))
                h.kill_ver(st,b);return
            h.set_cell(st,b,off,size,None,v);return
        if isinstance(b,VecBase): h.elem_store(st,p,size,v);return
        if isinstance(b,NodeBase): h.node_store(st,p,size,v);return
        raise Unsupported('store to %r'%(p,))
    def raw_text(h,st,p):
        """pointer into the text of a whole string -> pointer into its storage (the string gets unfolded)"""
        bid=p.base.bid
        for b,d in list(st.mem.items()):
            for o,(sz,T_,v) in list(d.cells.items()):
                w=h.str_path(T_,v,bid)
                while w is not None:
                    h.unfold_cell(st,b,o)
                    q=h.canon(st,p)
                    if isinstance(q.base,Block): return q
                    o,c=next(((oo,cc) for oo,cc in st.mem[b].cells.items() if h.str_path(cc[1],cc[2],bid)),(None,None))
                    if o is None: break
        raise Unsupported('store into text %r'%p.base)
    def str_path(h,T_,v,bid):
        if isinstance(v,StrV):
            return True if (v.b is bid or (isinstance(v.b,int) and isinstance(bid,int) and v.b==bid) or (isz(v.b) and isz(bid) and v.b.eq(bid))) else None
        if isinstance(v,RecV): return True if any(h.str_path(None,x,bid) for x in v.vs) else None
        if isinstance(v,(ExpV,OptV)): return h.str_path(None,v.val,bid) or (h.str_path(None,v.err,bid) if isinstance(v,ExpV) else None)
        return None
    def kill_ver(h,st,b):
        d=st.w(b)
        if d.ver is not None:
            st.dead.append(d.ver)
            d.ver=None
    # ---------- objects
    def read_obj(h,st,p,T_):
        """abstract value of the object of type T_ at p (folds raw cells when needed)"""
        if p.base is None: h.ex.oblige(st,False,'null-pointer','object access');raise Infeasible()
        if p.null is not False: h.ex.oblige(st,Not(p.null),'null-pointer','object access')
        p=h.canon(st,p);b=p.base
        if isinstance(b,VecBase):
            t,(v,off)=h.elem(st,p);r=h.path_obj(t,v,off,T_);return r
        if isinstance(b,NodeBase):
            t,v,off=h.node(st,p)
            if off<0:
                return h.node_key(st,p,T_)
            return h.path_obj(t,v,off,T_)
        if isinstance(b,TextBase) and T_.size==1:
            return h.load(st,p,__import__('ir').I(8),1)
        if isinstance(b,GlobalBase): return h.ex.global_obj(st,b,p.off,T_)
        if not isinstance(b,Block): raise Unsupported('object at %r'%(p,))
        d=h.live(st,b,'object access')
        off=h.coff(st,p)
        if d.arr is None and off is None:
            h.ensure_arr(st,b,T_);d=st.mem[b]
        if d.arr is not None:
            i,r=h.arr_idx(st,p,d,'object')
            elT=d.arr[0]
            h.bounds(st,p,T_.size,'array element')
            if elT.owner: h.ex.oblige(st,And(le(d.arr[2],i),lt(i,d.arr[3])),'lifetime','use of an element that is not constructed')
            if st.reads is not None: st.reads.add((b,'arr'))
            v=h.so.fz(elT,sel(d.arr[1],i));st.assume(*h.so.inv(elT,v))
            return h.path_obj(elT,v,r,T_)
        return h.read_cells(st,b,off,T_)
    def read_cells(h,st,b,off,T_):
        while True:
            d=st.mem[b]
            c=d.cells.get(off)
            if c is not None and c[0]==T_.size and c[1] is not None and c[1].name==T_.name:
                if st.reads is not None: st.reads.add((b,off))
                if isinstance(c[2],UnspecV) and T_.kind not in('opaque',):
                    v=h.so.const(T_,'unspec');
                    if T_.kind=='str': v.ok=fresh_bool('ok')
                    st.assume(*h.so.inv(T_,v))
                    h.set_cell(st,b,off,T_.size,T_,v);return v
                return c[2]
            if c is not None and c[0]==T_.size and T_.kind in('int','bool','ptr','float'):
                if st.reads is not None: st.reads.add((b,off))
                if c[1] is None or c[1].kind in('int','bool','ptr','float'):
                    if c[2] is UNDEF: h.ex.oblige(st,False,'uninitialized','read of uninitialised storage %s+%s'%(b.name,off));raise Infeasible()
                    v=c[2]
                    if T_.kind=='ptr' and isinstance(v,PInt): v=v.p if v.d==0 else v.p.plus(v.d)
                    if T_.kind=='ptr' and isinstance(v,int) and v==0: v=NULL
                    if T_.kind=='bool' and not isinstance(v,bool) and not (isz(v) and z3.is_bool(v)): v=i2b(v)
                    if T_.kind=='int' and (isinstance(v,bool) or (isz(v) and z3.is_bool(v))): v=b2i(v)
                    return v
            # something bigger encloses it
            o,cc=h.find_cell(d,off,T_.size)
            if cc is not None and (cc[0]>T_.size or (cc[1] is not None and cc[1].kind in('rec','exp','opt') and h.inside(cc[1],off-o,T_))):
                h.unfold_cell(st,b,o);continue
            break
        # fold from parts
        k=T_.kind
        if k=='rec':
            if not T_.fields: return RecV(T_,[])
            return RecV(T_,[h.read_cells(st,b,off+o,ft) for o,n,ft in T_.fields])
        if k=='sv':
            p=h.read_cells(st,b,off+T_.po,h.ty.get('char*'));l=h.read_cells(st,b,off+T_.lo,h.ty.get('unsigned long'))
            return h.mk_view(st,p,l)
        if k=='opt':
            has=h.read_cells(st,b,off+T_.boff,h.ty.get('bool'));has=h.decide(st,has)
            return OptV(T_,has,h.read_cells(st,b,off+T_.uoff,T_.Tt) if has else None)
        if k=='exp':
            ok=h.decide(st,h.read_cells(st,b,off+T_.boff,h.ty.get('bool')))
            return ExpV(T_,ok,h.read_cells(st,b,off+T_.uoff,T_.Tt) if ok else None,None if ok else h.read_cells(st,b,off+T_.uoff,T_.Et))
        if k in('vec','str'): return h.fold_buffer(st,b,off,T_)
        h.ex.oblige(st,False,'uninitialized','no constructed %s at %s+%s'%(T_.name,b.name,off));raise Infeasible()
    def inside(h,big,off,T_):
        if big.name==T_.name: return False
        if big.kind=='rec':
            for o,n,ft in big.fields:
                if o<=off<o+(ft.size or 1): return (o==off and (ft.name==T_.name)) or h.inside(ft,off-o,T_) or (o==off and ft.size==T_.size)
        if big.kind in('exp','opt'): return True
        return False
    def mk_view(h,st,p,l):
        if p.base is None: h.ex.oblige(st,False,'null-pointer','view of a null pointer');raise Infeasible()
        if p.null is not False: h.ex.oblige(st,Not(p.null),'null-pointer','view of a null pointer')
        b,o=h.as_text(st,p)
        h.ex.oblige(st,And(le(0,o),le(0,l),le(add(o,l),BSZ(zi(b)))),'bounds','view outside the text')
        return SVV(b,o,l)
    def fold_buffer(h,st,b,off,T_):
        L=h.ty.get('coil::Buffer');fo={n:o for o,n,_ in L.fields}
        UL=h.ty.get('unsigned long')
        g=lambda n,t=UL: h.read_cells(st,b,off+fo[n],t)
        p=g('m_ptr',h.ty.get('char*'));cap=g('m_capacity');ch=g('m_chunkSize');size=g('m_size')
        if 'm_constructedObjectsCount' in fo:
            cnt=g('m_constructedObjectsCount')
            h.ex.oblige(st,eq(cnt,size if T_.kind=='vec' else 0),'invariant','constructed-object count matches')
        O=lambda c,m: h.ex.oblige(st,c,'invariant','%s: %s'%(T_.name,m))
        O(le(size,cap),'size within capacity')
        isnull=p.base is None or h.decide(st,p.null)
        if T_.kind=='vec':
            elT=h.ty.el(T_)
            O(Or(eq(ch,elT.size),eq(cap,0)),'chunk size is the element size')
            if isnull:
                O(eq(cap,0),'storage present');
                v=VecV(elT,size,cap,z3.Const(fresh_name('emptyarr'),z3.ArraySort(IntS,h.so.sort(elT))))
            else:
                if not isinstance(p.base,Block): raise Unsupported('vector storage %r'%(p,))
                d=h.live(st,p.base,'vector storage');blk=p.base
                h.ensure_arr(st,blk,elT);d=st.mem[blk]
                O(eq(p.off,0),'storage pointer at the block start')
                if d.arr[0].name!=elT.name: raise Unsupported('element type of storage')
                O(le(mul(cap,elT.size),blk.size),'storage large enough')
                if elT.owner:
                    O(And(eq(d.arr[2],0) if not h.prove(st,eq(d.arr[2],d.arr[3])) else True,eq(d.arr[3],size) if not h.prove(st,And(eq(d.arr[2],d.arr[3]),eq(size,0))) else True),'exactly the first size elements are constructed')
                v=VecV(elT,size,cap,d.arr[1])
                v.raw=(blk,p,cap,ch,st.mem[blk].clone())
                d=st.w(blk);d.live=False;del st.mem[blk]
                st.alias[('folded',blk)]=VecBase(Ptr(b,off),elT,st.epoch.get((b,str(off)),0))
        else:
            # String
            if isnull:
                O(eq(size,0),'storage present')
                v=StrV(0,0,False)
            else:
                blk=p.base
                if not isinstance(blk,Block): raise Unsupported('string storage %r'%(p,))
                d=h.live(st,blk,'string storage')
                h.ensure_arr(st,blk,h.ty.get('char'))
                O(eq(p.off,0),'storage pointer at the block start')
                O(Or(eq(ch,1),eq(cap,0)),'chunk size is one')
                O(le(cap,blk.size),'storage large enough')
                ok=h.decide(st,lt(0,size))
                k=h.text_of_block(st,blk);arr=st.mem[blk].arr[1]
                if ok: O(eq(sel(arr,sub(size,1)),0),'NUL terminated')
                v=StrV(k,sub(size,1) if ok else 0,ok)
                v.raw=(blk,p,cap,ch,st.mem[blk].clone())
                d=st.w(blk);d.live=False;del st.mem[blk]
                st.alias[('folded',blk)]=TextBase(k)
        dd=st.w(b)
        for n,o in fo.items(): dd.cells.pop(off+o,None)
        dd.cells[off]=(T_.size,T_,v)
        return v
    def write_obj(h,st,p,T_,v,construct=False):
        h.deref_checks(st,p,'object write')
        p=h.canon(st,p);b=p.base
        if isinstance(b,VecBase): h.elem_store(st,p,T_,v);return
        if isinstance(b,NodeBase): h.node_store(st,p,T_,v);return
        if not isinstance(b,Block): raise Unsupported('object write to %r'%(p,))
        d=h.live(st,b,'object write')
        off=h.coff(st,p)
        if d.arr is None and off is None: h.ensure_arr(st,b,h.ex.heap_el or T_);d=st.mem[b]
        if d.arr is None and b.kind=='heap' and not d.cells and h.ex.heap_el is not None and b.ty is None and not isinstance(b.size,int):
            h.ensure_arr(st,b,h.ex.heap_el);d=st.mem[b]
        if d.arr is not None:
            h.bounds(st,p,T_.size,'array element write')
            i,r=h.arr_idx(st,p,d,'object write');elT=d.arr[0]
            d=st.w(b)
            v=h.concrete(st,T_,v)
            if r==0 and elT.name==T_.name: z=h.so.tz(elT,v)
            else: z=h.so.tz(elT,h.path_store(elT,h.so.fz(elT,sel(d.arr[1],i)),r,T_,v))
            if elT.owner:
                lo,hi=d.arr[2],d.arr[3]
                if construct:
                    if h.prove(st,eq(i,hi)): d.arr[3]=add(i,1)
                    elif h.prove(st,eq(lo,hi)): d.arr[2]=i;d.arr[3]=add(i,1)
                    elif h.prove(st,eq(add(i,1),lo)): d.arr[2]=i
                    else: h.ex.oblige(st,eq(i,hi),'lifetime','element constructed in place of a live one or out of order')
                else: h.ex.oblige(st,And(le(lo,i),lt(i,hi)),'lifetime','assignment to an element that is not constructed')
            d.arr[1]=store(d.arr[1],i,z)
            h.kill_ver(st,b);return
        h.bounds(st,p,T_.size,'object write')
        if construct and T_.owner:
            bad=h.owner_cells(st,b,off,T_.size)
            if bad: h.ex.oblige(st,False,'lifetime','construction over a live object (%s)'%bad[0])
        h.set_cell(st,b,off,T_.size,T_,v)
    def owner_cells(h,st,b,off=0,size=None):
        out=[]
        d=st.mem.get(b)
        if d is None: return out
        for o,(sz,T_,v) in d.cells.items():
            if T_ is not None and T_.owner and (size is None or (o<off+size and off<o+sz)):
                if T_.kind=='opt' and v.has is False if isinstance(v,OptV) else False: continue
                if T_.kind in('exp','opt') and not h.owns(v): continue
                out.append('%s at %s+%d'%(T_.name,b.name,o))
        return out
    def owns(h,v):
        if isinstance(v,OptV): return v.has is not False and v.ty.Tt.owner
        if isinstance(v,ExpV): return (v.ok is not False and v.ty.Tt.owner) or (v.ok is not True and v.ty.Et.owner)
        return True
    def destroy(h,st,p,T_):
        """end the lifetime of the object at p; returns its last value"""
        h.deref_checks(st,p,'destroy')
        p=h.canon(st,p);b=p.base
        if isinstance(b,(VecBase,NodeBase)): raise Unsupported('destroying an element through its container')
        v=h.read_obj(st,p,T_)
        d=st.mem[b]
        if d.arr is not None:
            i,r=h.arr_idx(st,p,d,'destroy');elT=d.arr[0]
            d=st.w(b)
            if elT.owner:
                lo,hi=d.arr[2],d.arr[3]
                if h.prove(st,eq(add(i,1),hi)): d.arr[3]=i
                elif h.prove(st,eq(i,lo)): d.arr[2]=add(lo,1)
                else: h.ex.oblige(st,eq(add(i,1),hi),'lifetime','element destroyed out of order')
        else:
            off=h.coff(st,p);d=st.w(b)
            for o in [o for o,c in d.cells.items() if off<=o and o+c[0]<=off+T_.size]: del d.cells[o]
        h.kill_texts(st,T_,v)
        return v
    def kill_texts(h,st,T_,v):
        if isinstance(v,UnspecV): return
        if isinstance(v,StrV) and v.ok is not False:
            if not (isinstance(v.b,int) and v.b<2*INPUT_ID_MAX): st.dead.append(v.b)
        elif isinstance(v,RecV):
            for f,x in zip(v.ty.fields,v.vs): h.kill_texts(st,f[2],x)
        elif isinstance(v,ExpV):
            if v.ok is True: h.kill_texts(st,v.ty.Tt,v.val)
            elif v.ok is False: h.kill_texts(st,v.ty.Et,v.err)
        elif isinstance(v,OptV) and v.has is True: h.kill_texts(st,v.ty.Tt,v.val)
    # ---------- memory copies
    def copy(h,st,dst,src,n,what='memcpy'):
        if isinstance(n,int) and n==0: return
        src=h.canon(st,src);dst=h.canon(st,dst)
        # char ranges
        def chars(p):
            if isinstance(p.base,TextBase): return True
            if isinstance(p.base,Block):
                d=st.mem.get(p.base)
                if d is None: return False
                if d.arr is not None: return d.arr[0].size==1
                return h.ex.heap_el is not None and h.ex.heap_el.size==1 and p.base.kind=='heap' and not d.cells
            return False
        if not isinstance(n,int) or (chars(dst) or chars(src)):
            if not chars(dst) and isinstance(dst.base,Block) and not isinstance(n,int): pass
            if not isinstance(n,int): n=val_of(simp(n))
            if not isinstance(n,int) and h.prove(st,eq(n,0)): return
            h.deref_checks(st,dst,what);h.deref_checks(st,src,what)
            if not isinstance(dst.base,Block): raise Unsupported('copy to %r'%(dst,))
            h.live(st,dst.base,what);h.ensure_arr(st,dst.base,h.ty.get('char'))
            h.ex.oblige(st,And(le(0,dst.off),le(add(dst.off,n),dst.base.size)),'bounds',what+' destination')
            if isinstance(src.base,Block) and src.base.kind!='heap' and h.coff(st,src) is not None and isinstance(n,int) and n<=8:
                # a few bytes from a local
                arr=st.mem[dst.base].arr[1]
                for k in range(n):
                    v=h.load(st,src.plus(k),__import__('ir').I(8),1);arr=store(arr,add(dst.off,k),v)
                d=st.w(dst.base);d.arr[1]=arr;h.kill_ver(st,dst.base);return
            if isinstance(src.base,Block): h.live(st,src.base,what)
            sb,so=h.as_text(st,src)
            h.alive_text(st,sb,what+' source')
            h.ex.oblige(st,And(le(0,so),le(add(so,n),BSZ(zi(sb)))),'bounds',what+' source')
            if src.base is dst.base and what=='memcpy':
                h.ex.oblige(st,Or(eq(n,0),le(add(so,n),dst.off),le(add(dst.off,n),so)),'bounds','memcpy ranges overlap')
            d=st.w(dst.base)
            d.arr[1]=BLIT(d.arr[1],zi(dst.off),CH(zi(sb)),zi(so),zi(n))
            h.kill_ver(st,dst.base);return
        h.deref_checks(st,dst,what);h.deref_checks(st,src,what)
        # typed objects
        sT=None
        sb=src.base
        if isinstance(sb,VecBase) and sb.elT.size==n: sT=sb.elT
        elif isinstance(sb,Block) and st.mem.get(sb) is not None and st.mem[sb].arr is not None and st.mem[sb].arr[0].size==n: sT=st.mem[sb].arr[0]
        elif isinstance(sb,Block) and st.mem.get(sb) is not None:
            off=h.coff(st,src)
            if off is not None:
                c=st.mem[sb].cells.get(off)
                if c and c[0]==n and c[1] is not None: sT=c[1]
        if sT is None and isinstance(dst.base,Block):
            d=st.mem.get(dst.base)
            if d is not None and d.arr is not None and d.arr[0].size==n: sT=d.arr[0]
            elif d is not None and h.ex.heap_el is not None and h.ex.heap_el.size==n and dst.base.kind=='heap': sT=h.ex.heap_el
        if sT is None and isinstance(dst.base,VecBase) and dst.base.elT.size==n: sT=dst.base.elT
        for p in (dst,src):
            if sT is None and isinstance(p.base,VecBase):
                q=div_exact(p.off,p.base.elT.size)
                if q is not None and isinstance(q[1],int): sT=member_at(p.base.elT,q[1],n)
        if sT is not None and not sT.owner:
            v=h.read_obj(st,src,sT);h.write_obj(st,dst,sT,v,construct=True);return
        if isinstance(sb,Block) and isinstance(dst.base,Block):
            h.live(st,sb,what);h.live(st,dst.base,what)
            h.bounds(st,src,n,what+' source');h.bounds(st,dst,n,what+' destination')
            so=h.coff(st,src);do=h.coff(st,dst)
            if so is None or do is None: raise Unsupported('copy with symbolic offsets')
            while True:
                d=st.mem[sb];again=False;parts=[]
                for o,c in d.cells.items():
                    if o<so+n and so<o+c[0]:
                        if o>=so and o+c[0]<=so+n: parts.append((o-so,c))
                        else: h.unfold_cell(st,sb,o);again=True;break
                if not again: break
            dd=st.w(dst.base)
            for o in [o for o in dd.cells if do<=o and o+dd.cells[o][0]<=do+n]: del dd.cells[o]
            for o,c in parts:
                if c[1] is not None and c[1].owner: raise Unsupported('bitwise copy of an owning object')
                h.set_cell(st,dst.base,do+o,c[0],c[1],c[2])
                if st.reads is not None: st.reads.add((sb,so+o))
            return
        raise Unsupported('copy %r <- %r'%(dst,src))

def member_at(T_,off,n):
    """the type of the member of n bytes at the offset"""
    if off==0 and T_.size==n: return T_
    if T_.kind=='rec':
        for o,_,t in T_.fields:
            if o<=off and off+n<=o+t.size: return member_at(t,off-o,n)
    return None
BLIT=z3.Function('BLIT',z3.ArraySort(IntS,IntS),IntS,z3.ArraySort(IntS,IntS),IntS,IntS,z3.ArraySort(IntS,IntS))
BLITD.append(BLIT)
def _blit_axiom():
    d,s=z3.Consts('bd bs',z3.ArraySort(IntS,IntS));o,so,n,j=z3.Ints('bo bso bn bj')
    ax=z3.ForAll([d,o,s,so,n,j],z3.Select(BLIT(d,o,s,so,n),j)==z3.If(z3.And(o<=j,j<o+n),z3.Select(s,so+j-o),z3.Select(d,j)),
        patterns=[z3.Select(BLIT(d,o,s,so,n),j)])
    AXIOMS.append(('bytes after a block copy',ax))
_blit_axiom()
