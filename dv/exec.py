"""Symbolic execution of LLVM IR functions against contracts."""
import re,time,sys,pickle
from core import *
from state import *
import ir
from ir import I
import z3,os
DVT=os.environ.get('DVT')

sys.setrecursionlimit(20000)
ASHR=1<<63
class PathEnd(Exception): pass
class Timeout(Unsupported): pass
class Enough(Exception): pass
class Lost(BaseException): pass     # a process ended unexpectedly: the function is verified again

def split_top(s,sep=','):
    out=[];d=0;cur=''
    i=0
    while i<len(s):
        ch=s[i]
        if ch in '<([{': d+=1
        if ch in '>)]}' and not (ch=='>' and s[i-1:i]=='-'): d-=1
        if ch==sep and d==0: out.append(cur.strip());cur=''
        else: cur+=ch
        i+=1
    if cur.strip(): out.append(cur.strip())
    return out
def parse_sig(dem):
    """demangled -> (return type or None, qualified name, [param types], const)"""
    s=dem
    const=False
    m=re.search(r'\)( const)?(&&|&)?( \[clone.*\])?$',s)
    if not m: return None,s,None,False
    const=bool(m.group(1))
    end=m.start();d=0;i=end
    while i>=0:
        if s[i]==')': d+=1
        if s[i]=='(':
            d-=1
            if d==0: break
        i-=1
    # find matching open paren of the last group
    d=0;i=end
    while True:
        if s[i]==')':d+=1
        elif s[i]=='(':
            d-=1
            if d==0: break
        i-=1
    params=split_top(s[i+1:end]);name=s[:i]
    if params==['void']: params=[]
    # return type: a top-level space before the name
    d=0;cut=-1
    k=0
    if 'operator' not in name:
        for k,ch in enumerate(name):
            if ch in '<([{': d+=1
            elif ch in '>)]}' and name[k-1]!='-': d-=1
            elif ch==' ' and d==0: cut=k
    else:
        o=name.index('operator')
        for k,ch in enumerate(name[:o]):
            if ch in '<([{': d+=1
            elif ch in '>)]}' and name[k-1]!='-': d-=1
            elif ch==' ' and d==0: cut=k
    ret=name[:cut] if cut>=0 else None
    return ret,name[cut+1:],params,const
def qual_split(q):
    """qualified name -> (scope, last)"""
    d=0;last=0
    i=0
    while i<len(q)-1:
        ch=q[i]
        if ch in '<([{': d+=1
        elif ch in '>)]}' and not(ch=='>' and i and q[i-1]=='-'): d-=1
        if q[i:i+8]=='operator' and d==0: break
        if d==0 and q[i:i+2]=='::': last=i+2;i+=1
        i+=1
    return (q[:last-2] if last else '',q[last:])

class LoopCtx:
    def __init__(s,header,blocks,mode,invs=None): s.header=header;s.blocks=blocks;s.mode=mode;s.invs=invs;s.backs=[];s.exits=[];s.frame_depth=None

class Exec:
    def __init__(s,mods,types,contracts,budget=120):
        s.types=types;s.sorts=Sorts(types);s.h=Heap(s)
        s.funcs={};s.decls={};s.globals={}
        for m in mods:
            for n,f in m.funcs.items(): s.funcs.setdefault(n,f)
            s.decls.update(m.decls)
        s.mods=mods
        for m in mods:
            for n,g in m.globals.items():
                if g[0]=='alias' and g[1] in s.funcs: s.funcs.setdefault(n,s.funcs[g[1]])
        s.dem={}
        s.dem.update(ir.demangle(list(s.funcs)+[d for d in s.decls if d not in s.funcs]))
        for n,f in s.funcs.items(): f.dem=s.dem[n] if f.name==n else getattr(f,'dem',s.dem[n])
        s.contracts=contracts;s._cc={}
        s.budget=budget;s.lit={};s.heap_el=None
        s.quiet=0;s.obls=[];s.failures=[];s.top=None;s.t_end=None
        s.assumed=set();s.used=set();s.inlined=set()
        s.solver_s=0;s.queries=0;s.debug=False
        s.vcache={};s.loop_hints={};s.tokens=None
        types.lambda_hook=s.lambda_type
    # ------------------------------------------------------------ solver
    def relevant(s,pc): return pc
    def valid(s,st,c,timeout=2000):
        c=val_of(c)
        if isinstance(c,bool): return c
        if s.t_end and time.time()>s.t_end: raise Timeout('time budget')
        key=c.get_id();seen=st.ghost.get('proved')
        if seen and key in seen: return True
        s._keep(c)
        fk=st.ghost.get('refuted')
        if fk and fk.get(key)==len(st.pc): return False
        r,m=valid(st.pc,c,timeout,2,not s.full)
        if r is True:
            st.ghost['proved']=(seen or frozenset())|{key}
        else:
            d=dict(fk or {});d[key]=len(st.pc);st.ghost['refuted']=d
        return bool(r)
    def _keep(s,c): s.vcache[c.get_id()]=c
    def feasible(s,st):
        if s.t_end and time.time()>s.t_end: raise Timeout('time budget')
        r,_=check_qf(st.pc,400,1)
        return r!=z3.unsat
    def where(s,st):
        return ' < '.join(f.fn.dem[:90] if f.fn else '?' for f in reversed(st.frames[-4:]))
    def oblige(s,st,cond,kind,msg,goal_timeout=8000,known=False):
        cond=val_of(cond)
        if s.strict:
            if cond is True: return True
            if cond is False or not s.valid(st,cond,1500): raise Unsupported('not provable here: '+msg)
            return True
        if s.quiet:
            if cond is False: raise PathEnd()
            if cond is not True: st.assume(cond)
            return True
        rec=dict(kind=kind,msg=msg,at=s.where(st))
        if cond is True: rec['ok']=True;rec['by']='simplification';s.obls.append(rec);return True
        t=time.time();r,m=(True,None) if known else valid(st.pc,cond,goal_timeout,3)
        rec['t']=time.time()-t
        if DVT and rec['t']>.3: print('SLOW %.1f'%rec['t'],r,kind,msg)
        if r is True: rec['ok']=True;rec['by']='z3';s.obls.append(rec)
        else:
            if r is None and cond is not False:
                c5=cvc5_check(list(st.pc)+unfold([zb(x) for x in st.pc]+[zb(cond)],3)+[Not(cond)],15)
                if c5=='unsat':
                    rec['ok']=True;rec['by']='cvc5';s.obls.append(rec);st.assume(cond);return True
            rec['ok']=False;rec['result']='refuted (model)' if r is False else 'not proved'
            rec['function']=s.top
            if r is False and m is not None:
                try: rec['model']=str(m.model())[:1500]
                except Exception: pass
            rec['goal']=str(cond)[:800]
            if st.ghost.get('loopabs'): rec['loop']=True
            s.obls.append(rec);s.failures.append(rec)
            if s.t_end and time.time()-s.t_end+getattr(s,'budget',1e9)>20 and sum(1 for f in s.failures if not f.get('loop'))>3: raise Enough()
            if s.debug: print('FAILED',rec['kind'],rec['msg'],rec['at'],'\n   goal',str(cond)[:600])
        if cond is False: raise PathEnd()
        st.assume(cond)
        return rec['ok']
    def note_raw(s,st,blk,b,off): pass
    def elem_hint(s,size):
        if size==1: return s.types.get('char')
        if s.heap_el: return s.heap_el
        raise Unsupported('element type of untyped storage (%d bytes)'%size)
    def text_char(s,st,b,o):
        if isinstance(b,int) and b in s.litbytes:
            L=s.litbytes[b]
            ov=val_of(simp(o)) if isz(o) else o
            if isinstance(ov,int) and 0<=ov<len(L): return L[ov]
        r=sel(CH(zi(b)),o)
        rv=val_of(simp(r))
        if isinstance(rv,int): return rv
        st.assume(le(0,r),lt(r,256))
        return r
    def lambda_type(s,n):
        """the record of captures of a lambda expression, from the code of its call operator"""
        import cxxtypes
        g=next((f for k,f in s.funcs.items() if cxxtypes.norm(s.dem[k]).startswith(n+'::operator()(')),None)
        if g is None: return None
        ty=next((i.ty for b in g.blocks.values() for i in b.ins if i.op=='getelementptr' and i.ty.k=='named' and '.anon' in i.ty.name),None)
        if ty is None: raise Unsupported('captures of '+n)
        m=re.match(r'(.*)::\{lambda\(.*\)#\d+\}$',n)
        t=cxxtypes.T(n,'rec',s.sz(ty,g.mod));st=s.rty(ty,g.mod);fs=[];sigs=[s.types.get(p) for p in parse_sig(m.group(1))[2] or [] if cxxtypes.MEMP.fullmatch(cxxtypes.norm(p)) or cxxtypes.FNP.fullmatch(cxxtypes.norm(p))] if m else []
        for i,f in enumerate(st.fs):
            o=s.foff(st,i,g.mod);nm='capture%d'%i
            if f.k=='ptr': fs.append((o,nm,s.types.get('void*')))
            elif f.k=='named' and f.name.startswith(('struct.','class.')):
                ft=s.types.get(re.sub(r'^(struct|class)\.|\.\d+$','',f.name))
                if ft.kind=='opaque': raise Unsupported('capture of '+n)
                fs.append((o,nm,ft))
            elif f.k=='st' and [x.k for x in f.fs]==['i','i'] and len([x for x in fs if getattr(x[2],'memptr',0)])<len(sigs):
                fs.append((o,nm,sigs[len([x for x in fs if getattr(x[2],'memptr',0)])]))
            elif f.k=='i': fs.append((o,nm,s.types.get({1:'bool',8:'char',32:'int',64:'unsigned long'}[f.w])))
            else: raise Unsupported('capture of '+n)
        t.fields=fs
        return t
    # ------------------------------------------------------------ data layout
    def rty(s,ty,mod):
        while ty.k=='named': 
            ty=mod.types.get(ty.name)
            if ty is None: raise Unsupported('opaque type')
        return ty
    def sz(s,ty,mod):
        return s.sa(ty,mod)[0]
    def sa(s,ty,mod):
        ty=s.rty(ty,mod);k=ty.k
        if k=='i':
            n=max(1,(ty.w+7)//8)
            a=1
            while a<n: a*=2
            return a,min(a,16)
        if k=='ptr': return 8,8
        if k=='f': return {32:(4,4),64:(8,8),80:(16,16)}[ty.w]
        if k=='arr':
            z,a=s.sa(ty.el,mod);return z*ty.n,a
        if k=='st':
            o=0;A=1
            for f in ty.fs:
                z,a=s.sa(f,mod)
                if ty.packed:a=1
                o=(o+a-1)//a*a+z;A=max(A,a)
            return (o+A-1)//A*A,A
        raise Unsupported('size of %r'%ty)
    def foff(s,ty,i,mod):
        o=0
        for j,f in enumerate(ty.fs):
            z,a=s.sa(f,mod)
            if ty.packed:a=1
            o=(o+a-1)//a*a
            if j==i: return o
            o+=z
    # ------------------------------------------------------------ globals
    litbytes={}
    def literal(s,st,data):
        k=s.lit.get(data)
        if k is None:
            k=INPUT_ID_MAX+1+len(s.lit);s.lit[data]=k;s.litbytes[k]=data
        if ('lit',k) not in st.ghost:
            st.ghost[('lit',k)]=True
            f=[BSZ(z3.IntVal(k))==len(data)]
            if len(data)<=40:
                c=CH(z3.IntVal(k))
                f+=[z3.Select(c,i)==data[i] for i in range(len(data))]
            else: f.append(z3.Select(CH(z3.IntVal(k)),len(data)-1)==data[-1])
            st.pc.extend(f)
        return Ptr(TextBase(k),0)
    def glob(s,st,name,mod):
        if name in s.funcs or name in s.decls: return Ptr(FuncBase(name),0)
        g=mod.globals.get(name)
        if g is None or (g[0]!='alias' and g[2] is None):
            for m in s.mods:
                gg=m.globals.get(name)
                if gg is not None and (gg[0]=='alias' or gg[2] is not None): g=gg;mod=m;break
        if g is None: raise Unsupported('global '+name)
        if g[0]=='alias': return s.glob(st,g[1],mod)
        if g[0]=='constant' and g[2] is not None and g[2][0]=='str': return s.literal(st,g[2][1])
        if g[0]=='constant' and g[2] is not None and g[2][0]=='zero' and g[1].k=='arr' and g[1].el.k=='i' and g[1].el.w==8: return s.literal(st,b'\0'*g[1].n)
        return Ptr(GlobalBase(name,mod),0)
    def load_global(s,st,b,off,irty,size):
        g=None
        for m in [b.mod]+s.mods:
            g=m.globals.get(b.name)
            if g is not None and g[0]!='alias' and g[2] is not None: break
        if g is None or g[0]=='alias' or g[2] is None: 
            raise Unsupported('load from external global '+b.name)
        o=val_of(simp(off)) if isz(off) else off
        if g[0]!='constant' and not s.never_written(m,b.name): raise Unsupported('load from mutable global '+b.name)
        if not isinstance(o,int): raise Unsupported('symbolic offset into global '+b.name)
        return s.gconst(st,g[1],g[2],o,irty,m)
    def never_written(s,m,name):
        """an internal global that every mention loads from holds its initial value"""
        k=(id(m),name)
        if k not in s._nw:
            import re
            ok=False
            for l in m.src.split('\n'):
                if not re.search(r'@"?%s"?(?![\w.$])'%re.escape(name),l): continue
                if l.startswith('@'):
                    ok=l.startswith('@'+name+' = internal ') or l.startswith('@"'+name+'" = internal ')
                    if not ok: break
                elif not re.match(r'\s*%\S+ = load [^,]+, ptr @"?'+re.escape(name)+r'"?,',l): ok=False;break
            s._nw[k]=ok
        return s._nw[k]
    _nw={}
    def gconst(s,st,ty,init,o,irty,mod):
        ty=s.rty(ty,mod)
        if init[0]=='zero':
            return NULL if irty.k=='ptr' else 0
        if ty.k=='arr':
            es=s.sz(ty.el,mod);i=o//es
            if init[0]=='str': return init[1][o]
            e=init[1][i];return s.gconst(st,e[0],e[1],o-i*es,irty,mod)
        if ty.k=='st':
            for i,(ety,ev) in enumerate(init[1]):
                fo=s.foff(ty,i,mod);fz=s.sz(ety,mod)
                if fo<=o<fo+fz: return s.gconst(st,ety,ev,o-fo,irty,mod)
        return s.opv(st,ty,init,None,mod)
    def global_obj(s,st,b,off,T_):
        g=None
        for m in [b.mod]+s.mods:
            g=m.globals.get(b.name)
            if g is not None and g[0]=='constant' and g[2] is not None: break
        else: raise Unsupported('object in global '+b.name)
        def rd(T_,o):
            if T_.kind in('int','bool'):
                v=s.gconst(st,g[1],g[2],o,I(T_.size*8),m);return i2b(v) if T_.kind=='bool' else v
            if T_.kind=='ptr': return s.gconst(st,g[1],g[2],o,ir.PTR,m)
            if T_.kind=='rec': return RecV(T_,[rd(f[2],o+f[0]) for f in T_.fields])
            if T_.kind=='sv': return s.h.mk_view(st,rd(s.types.get('char*'),o+T_.po),rd(s.types.get('unsigned long'),o+T_.lo))
            raise Unsupported('global object '+T_.name)
        o=val_of(simp(off)) if isz(off) else off
        return rd(T_,o)
    # ------------------------------------------------------------ operands
    def opv(s,st,ty,v,env,mod):
        k=v[0]
        if k=='r': 
            try: return env[v[1]]
            except KeyError: raise Unsupported('register '+v[1])
        if k=='c':
            if ty is not None and ty.k=='i' and ty.w==1: return bool(v[1])
            return int(v[1])
        if k=='null': return NULL
        if k=='g': return s.glob(st,v[1],mod)
        if k=='undef':
            t=s.rty(ty,mod) if ty.k=='named' else ty
            if t.k=='st': return Agg([UNDEF]*len(t.fs))
            return UNDEF
        if k=='zero':
            t=s.rty(ty,mod)
            if t.k=='st': return Agg([s.opv(st,f,('zero',f),env,mod) for f in t.fs])
            if t.k=='arr': return Agg([s.opv(st,t.el,('zero',t.el),env,mod) for _ in range(t.n)])
            if t.k=='ptr': return NULL
            if t.k=='i': return False if t.w==1 else 0
            if t.k=='f': return s.fconst('0.0',t)
        if k=='gep': return s.gep(st,v[1],[(t,s.opv(st,t,x,env,mod)) for t,x in v[2]],mod)
        if k=='agg': return Agg([s.opv(st,t,x,env,mod) for t,x in v[1]])
        if k=='str': return Agg(list(v[1]))
        if k=='fc': return s.fconst(v[1],ty)
        if k=='cexpr':
            if v[1]=='ptrtoint':
                (t,x),i=mod.tv(v[2],0);return PInt(s.opv(st,t,x,env,mod))
        raise Unsupported('operand %r'%(v,))
    def fsort(s,ty): return s.sorts.sort(s.types.get({32:'float',64:'double',80:'long double'}[ty.w]))
    def fconst(s,txt,ty):
        so=s.fsort(ty)
        if txt.startswith('0xK'):
            v=int(txt[3:],16);sg,e,m=v>>79,(v>>64)&0x7fff,v&((1<<64)-1)
            return FloatV(z3.simplify(z3.fpFP(z3.BitVecVal(sg,1),z3.BitVecVal(e,15),z3.BitVecVal(m&((1<<63)-1),63))))
        if txt.startswith('0x'): r=z3.simplify(z3.fpBVToFP(z3.BitVecVal(int(txt,16),64),z3.Float64()))
        else: r=z3.FPVal(float(txt),z3.Float64())
        return FloatV(r if so==z3.Float64() else z3.simplify(z3.fpFPToFP(z3.RNE(),r,so)))
    def fcmp(s,pr,a,b):
        un=z3.Or(z3.fpIsNaN(a),z3.fpIsNaN(b))
        if pr in('ord','uno'): return z3.Not(un) if pr=='ord' else un
        if pr in('true','false'): return pr=='true'
        f={'eq':z3.fpEQ,'gt':z3.fpGT,'ge':z3.fpGEQ,'lt':z3.fpLT,'le':z3.fpLEQ,'ne':lambda x,y:z3.Not(z3.fpEQ(x,y))}[pr[1:]]
        return z3.And(z3.Not(un),f(a,b)) if pr[0]=='o' else z3.Or(un,f(a,b))
    def gep(s,st,bty,ops,mod):
        p=ops[0][1]
        if isinstance(p,VTable): 
            return VFunc(p.obj,p.cls,val_of(ops[1][1]))
        if not isinstance(p,Ptr): raise Unsupported('gep on %r'%(p,))
        ty=bty;off=p.off
        t,i0=ops[1]
        off=add(off,mul(s.sgn(st,i0,t.w),s.sz(ty,mod)))
        for t,i in ops[2:]:
            ty=s.rty(ty,mod)
            if ty.k=='st': 
                iv=val_of(i);off=add(off,s.foff(ty,iv,mod));ty=ty.fs[iv]
            else:
                ty=ty.el;off=add(off,mul(s.sgn(st,i,t.w),s.sz(ty,mod)))
        return Ptr(p.base,off,p.null)
    # ------------------------------------------------------------ integers
    def ub(s,st,e):
        """cheap upper bound check helper: is 0<=e provable cheaply?"""
        return None
    def sgn(s,st,e,w):
        """signed reading of an unsigned w-bit value"""
        if isinstance(e,bool): return int(e)
        if isinstance(e,int): return e-(1<<w) if e>=(1<<(w-1)) else e
        if isinstance(e,PInt): raise Unsupported('pointer as signed integer')
        if z3.is_app_of(e,z3.Z3_OP_ITE) and e.num_args()==3 and val_of(e.arg(1)) in(0,1) and val_of(e.arg(2)) in (0,1): return e
        if s.valid(st,lt(e,1<<(w-1)),1000): return e
        return If(le(1<<(w-1),e),sub(e,1<<w),e)
    def wrap(s,st,e,w):
        if isinstance(e,int): return e%(1<<w)
        e=val_of(simp(e))
        if isinstance(e,int): return e%(1<<w)
        if s.valid(st,And(le(0,e),lt(e,1<<w)),1500): return e
        if s.valid(st,And(lt(e,0),le(-(1<<w),e)),800): return add(e,1<<w)
        return None
    def wrap1(s,st,e,w):
        r=s.wrap(st,e,w)
        if r is not None: return r
        return If(lt(e,0),add(e,1<<w),If(le(1<<w,e),sub(e,1<<w),e))
    def binop(s,st,op,ty,a,b,fl):
        w=ty.w
        if a is UNDEF or b is UNDEF: raise Unsupported('undefined operand')
        if isinstance(a,FloatV):
            return FloatV({'fmul':z3.fpMul,'fdiv':z3.fpDiv,'fadd':z3.fpAdd,'fsub':z3.fpSub}[op](z3.RNE(),a.t,b.t))
        if isinstance(a,PInt) or isinstance(b,PInt): return s.pintop(st,op,w,a,b)
        if w==1:
            f={'and':And,'or':Or,'xor':lambda x,y:ne(x,y) if True else 0}[op]
            if op=='xor':
                if b is True: return Not(a)
                return simp(zb(a)!=zb(b)) if isz(a) or isz(b) else a!=b
            return f(a,b)
        if op in('add','sub','mul'):
            if 'nsw' in fl:
                x,y=s.sgn(st,a,w),s.sgn(st,b,w)
                r={'add':add,'sub':sub,'mul':mul}[op](x,y)
                s.oblige(st,And(le(-(1<<(w-1)),r),lt(r,1<<(w-1))),'overflow','signed %s overflow'%op)
                return s.wrap1(st,r,w)
            r={'add':add,'sub':sub,'mul':mul}[op](a,b)
            if op=='mul':
                x=s.wrap(st,r,w)
                return x if x is not None else r%(1<<w)
            return s.wrap1(st,r,w)
        if op=='shl' and isinstance(val_of(b),int):
            r=mul(a,1<<val_of(b));x=s.wrap(st,r,w);return x if x is not None else r%(1<<w)
        if op in('udiv','urem'):
            s.oblige(st,ne(b,0),'division','division by zero')
            if isinstance(a,int) and isinstance(b,int): return a//b if op=='udiv' else a%b
            return zi(a)/zi(b) if op=='udiv' else zi(a)%zi(b)
        if op in('sdiv','srem'):
            s.oblige(st,ne(b,0),'division','division by zero')
            x=s.sgn(st,a,w);y=s.sgn(st,b,w)
            if isinstance(x,int) and isinstance(y,int):
                q=abs(x)//abs(y)*(1 if (x<0)==(y<0) else -1);return (q if op=='sdiv' else x-q*y)%(1<<w)
            if isinstance(y,int) and y>0:
                if op=='sdiv':
                    q=div_exact(x,y)
                    if q is not None and q[1]==0: return s.wrap1(st,q[0],w)
                if s.valid(st,le(0,x)): return zi(x)/y if op=='sdiv' else zi(x)%y
                if op=='sdiv' and 'exact' in fl:
                    return s.wrap1(st,zi(x)/y,w)
                return s.wrap1(st,If(le(0,x),zi(x)/y,-((-zi(x))/y)) if op=='sdiv' else If(le(0,x),zi(x)%y,-((-zi(x))%y)),w)
            raise Unsupported('signed division')
        if op in('and','or','xor','lshr','ashr'):
            if isinstance(a,int) and isinstance(b,int):
                if op=='ashr': return (s.sgn(st,a,w)>>b)%(1<<w)
                return {'and':a&b,'or':a|b,'xor':a^b,'lshr':a>>b}[op]
            if op=='lshr' and isinstance(b,int): return zi(a)/(1<<b)
            if op=='and':
                if isinstance(a,int): a,b=b,a
                if isinstance(b,int) and (b&(b+1))==0: return zi(a)%(b+1)
                if isinstance(b,int) and (b&(b-1))==0: return If(eq(zi(a)/b%2,1),b,0)
            if op=='ashr' and isinstance(b,int): return s.wrap1(st,zi(s.sgn(st,a,w))/(1<<b),w)
            f=z3.Function('bits_%s%d'%(op,w),IntS,IntS,IntS)(zi(a),zi(b))
            st.assume(le(0,f),lt(f,1<<w));return f
        raise Unsupported('binop '+op)
    def pintop(s,st,op,w,a,b):
        if op=='sub' and isinstance(a,PInt) and isinstance(b,PInt):
            pa,pb=s.h.canon(st,a.p),s.h.canon(st,b.p)
            if pa.base is pb.base: return s.wrap1(st,sub(add(pa.off,a.d),add(pb.off,b.d)),w)
            if isinstance(pa.base,TextBase) and isinstance(pb.base,TextBase):
                s.oblige(st,eq(pa.base.bid,pb.base.bid),'pointer','difference of pointers into different texts')
                return s.wrap1(st,sub(pa.off,pb.off),w)
            s.oblige(st,False,'pointer','difference of unrelated pointers')
        if isinstance(a,PInt) and isinstance(a.p.base,FuncBase) and op=='and' and b==1: return 0
        if isinstance(a,PInt) and isinstance(a.p.base,OpaqueBase) and a.p.base.cls.startswith('fn:') and op=='and' and b==1:
            s.assumed.add('bound member functions are not virtual');return 0
        if op in('add','sub') and isinstance(a,PInt) and not isinstance(b,PInt):
            return PInt(a.p,add(a.d,s.sgn(st,b,w)) if op=='add' else sub(a.d,s.sgn(st,b,w)))
        raise Unsupported('integer operation on a pointer: '+op)
    def icmp(s,st,pr,ty,a,b):
        if a is UNDEF or b is UNDEF: raise Unsupported('undefined operand')
        if isinstance(a,PInt) and isinstance(b,int) and b==0: a=a.p;b=NULL;ty=ir.PTR
        if isinstance(a,PInt) and isinstance(b,PInt): a=a.p;b=b.p
        if isinstance(a,(Ptr,)) or isinstance(b,Ptr):
            return s.pcmp(st,pr,a,b)
        w=ty.w
        if w==1:
            if pr=='eq': return simp(zb(a)==zb(b)) if isz(a) or isz(b) else a==b
            if pr=='ne': return simp(zb(a)!=zb(b)) if isz(a) or isz(b) else a!=b
            a,b=b2i(a),b2i(b)
        if pr=='eq': r=eq(a,b)
        elif pr=='ne': r=ne(a,b)
        else:
            if pr[0]=='s': a,b=s.sgn(st,a,w),s.sgn(st,b,w)
            k=pr[1:];r={'lt':lambda:lt(a,b),'le':lambda:le(a,b),'gt':lambda:lt(b,a),'ge':lambda:le(b,a)}[k]()
        return val_of(simp(r)) if isz(r) else r
    def pcmp(s,st,pr,a,b):
        for x,y in((a,b),(b,a)):
            if isinstance(x,Ptr) and (x.base is None):
                if isinstance(y,(VTable,VFunc)): r=False
                else: r=y.null if isinstance(y,Ptr) else False
                if isinstance(y,Ptr) and y.base is not None and y.null is False: r=False
                if pr=='eq': return r
                if pr=='ne': return Not(r)
                raise Unsupported('order with null')
        a=s.h.canon(st,a);b=s.h.canon(st,b)
        if a.base is b.base: e=True
        elif isinstance(a.base,TextBase) and isinstance(b.base,TextBase): e=eq(a.base.bid,b.base.bid)
        elif isinstance(a.base,OpaqueBase) and isinstance(b.base,OpaqueBase): e=eq(a.base.term,b.base.term)
        elif isinstance(a.base,NodeBase) and isinstance(b.base,NodeBase): e=And(eq(a.base.key,b.base.key)) if a.base.owner.base is b.base.owner.base else False
        elif isinstance(a.base,VecBase) and isinstance(b.base,VecBase): e=str(a.base.owner)==str(b.base.owner)
        else:
            e=False
            if isinstance(a.base,TextBase) and isinstance(b.base,Block) or isinstance(b.base,TextBase) and isinstance(a.base,Block):
                t,k=(a,b) if isinstance(a.base,TextBase) else (b,a)
                if k.base.kind=='stack': e=False
                else: raise Unsupported('comparison of a text pointer with a block')
        if pr in('eq','ne'):
            r=And(e,eq(a.off,b.off))
            n=And(a.null,b.null) if a.null is not False and b.null is not False else False
            if a.null is not False or b.null is not False: r=Or(And(Not(a.null),Not(b.null),r),n)
            r=val_of(simp(r)) if isz(r) else r
            return r if pr=='eq' else Not(r)
        s.oblige(st,e,'pointer','order of unrelated pointers')
        k=pr[1:];x,y=a.off,b.off
        r={'lt':lambda:lt(x,y),'le':lambda:le(x,y),'gt':lambda:lt(y,x),'ge':lambda:le(y,x)}[k]()
        return val_of(simp(r)) if isz(r) else r
    def cast(s,st,op,fty,v,tty):
        if v is UNDEF: raise Unsupported('undefined operand')
        if op in('bitcast','addrspacecast'): return v
        if op=='ptrtoint': return PInt(v) if isinstance(v,Ptr) else v
        if op=='inttoptr':
            if isinstance(v,PInt): return v.p.plus(v.d) if v.d!=0 else v.p
            if v==0: return NULL
            raise Unsupported('inttoptr')
        if op in('fpext','fptrunc'): return FloatV(z3.fpFPToFP(z3.RNE(),v.t,s.fsort(tty)))
        if op in('uitofp','sitofp'):
            x=v.t if isinstance(v,FloatV) else zi(b2i(v) if isinstance(v,bool) else v)
            return FloatV(z3.Function('%s_%s_%d'%(op,str(fty),tty.w),x.sort(),s.fsort(tty))(x))
        if op in('fptoui','fptosi'):
            r=z3.Function('%s_%s_%d'%(op,str(fty),tty.w),v.t.sort(),IntS)(v.t)
            st.assume(le(0,r),lt(r,1<<tty.w));return r
        if op=='zext':
            if fty.w==1: return b2i(v)
            return v
        if op=='sext':
            if fty.w==1: return If(v,(1<<tty.w)-1,0)
            if isinstance(v,int): return s.sgn(st,v,fty.w)%(1<<tty.w)
            if s.valid(st,lt(v,1<<(fty.w-1)),800): return v
            return If(le(1<<(fty.w-1),v),add(v,(1<<tty.w)-(1<<fty.w)),v)
        if op=='trunc':
            if isinstance(v,PInt): raise Unsupported('truncated pointer')
            if tty.w==1: return i2b(v)
            if isinstance(v,int): return v%(1<<tty.w)
            # sign extension followed by truncation
            if z3.is_app_of(v,z3.Z3_OP_ITE):
                a,b=v.arg(1),v.arg(2)
                d,c=lin_parts(sub(a,b))
                if not d and c%(1<<tty.w)==0 and s.valid(st,And(le(0,b),lt(b,1<<tty.w)),800): return b
            if s.valid(st,lt(v,1<<tty.w),800): return v
            return v%(1<<tty.w)
        raise Unsupported('cast '+op)
    # ------------------------------------------------------------ driver
    def drive(s,work,sink,par=None):
        """explore all states; sink(st,result) receives states whose last frame (depth given by ghost base) returned.
        With par (the record of the function's results) idle processors take over some of the states"""
        kids=[]
        try:
            s.drive_(work,sink,par,kids)
        finally:
            err=None;ended=sys.exc_info()[0] is not None
            for pid,fd in kids:
                if ended or err:
                    try: os.kill(pid,9)
                    except OSError: pass
                x=b''
                while True:
                    y=os.read(fd,1<<16)
                    if not y: break
                    x+=y
                os.close(fd);os.waitpid(pid,0);s.tokens.release()
                if ended or err: continue
                if not x: err=Lost('a helper process ended');continue
                k=pickle.loads(x)
                s.obls+=k['obls'];s.failures+=k['failures'];s.assumed|=k['assumed'];s.used|=k['used'];s.inlined|=k['inlined']
                STATS.t+=k['t'];STATS.q+=k['q'];par['paths']+=k['paths'];par['contradictory']=par.get('contradictory',0)+k['contradictory']
                if k['reached'] and not par.get('reached'): par['reached']=k['reached']
                if k['error']: err=k['error'][0](k['error'][1])
            if err and not ended: raise err
    def helper(s,st,sink,par,w):
        s.obls=[];s.failures=[];t,q=STATS.t,STATS.q;r0=dict(par);err=None
        try: s.drive([st],sink,par)
        except Enough as e: err=(Enough,'')
        except Timeout as e: err=(Timeout,str(e))
        except Unsupported as e: err=(Unsupported,str(e))
        except RecursionError: err=(RecursionError,'recursion')
        except (KeyError,AttributeError,IndexError,TypeError,AssertionError,z3.Z3Exception,ValueError) as e: err=(Unsupported,'internal: %r'%e)
        x=pickle.dumps(dict(obls=s.obls,failures=s.failures,assumed=set(s.assumed),used=set(s.used),inlined=set(s.inlined),t=STATS.t-t,q=STATS.q-q,
            paths=par['paths']-r0['paths'],contradictory=par.get('contradictory',0)-r0.get('contradictory',0),reached=par.get('reached'),error=err))
        while x: x=x[os.write(w,x):]
    def drive_(s,work,sink,par,kids):
        while work:
            st=work.pop()
            while par is not None and s.tokens is not None and work and s.tokens.acquire(False):
                job=work.pop(0);r,w=os.pipe();pid=os.fork()
                if pid==0:
                    try: os.close(r);s.helper(job,sink,par,w);os._exit(0)
                    except BaseException: os._exit(1)
                os.close(w);kids.append((pid,r))
            if s.t_end and time.time()>s.t_end: raise Timeout('time budget')
            try:
                s.run(st,work,sink)
            except PathEnd: pass
            except Infeasible: pass
    def push(s,st,work):
        work.append(st)
    def run(s,st,work,sink):
        while True:
            fr=st.frames[-1]
            ins=fr.fn.blocks[fr.blk].ins[fr.idx]
            op=ins.op
            snap=None
            if op in('load','store','call','invoke','ret','landingpad','resume'): snap=st.clone()
            elif op in('br','switch'): pass
            try:
                r=s.step(st,fr,ins,work,sink)
            except Fork as f:
                if snap is None:
                    if op in('br','switch','alloca'): raise Unsupported('fork in '+op)
                    snap=st   # a pure instruction has changed nothing yet
                a=snap;b=snap.clone()
                a.assume(f.cond);b.assume(Not(f.cond))
                out=[]
                for x in (a,b):
                    if s.feasible(x): out.append(x)
                work.extend(out);return
            if r=='end': return
    def goto(s,st,fr,dst,work,sink):
        """control transfer; handles loops. returns 'end' if the path is finished here"""
        src=fr.blk
        loops=fr.fn.loops()
        # leaving loops
        for hd in list(fr.loops):
            cx=fr.loops[hd]
            if dst not in cx.blocks:
                if cx.mode=='collect': 
                    cx.exits.append(1);return 'end'
                del fr.loops[hd]
        fr.prev=src;fr.blk=dst;fr.idx=0
        if dst in loops:
            cx=fr.loops.get(dst)
            if cx is not None:
                if cx.mode=='collect': cx.backs.append(st);return 'end'
                # back edge of the final run: invariants are re-established
                import loops as LP
                LP.back_edge(s,st,cx)
                return 'end'
            import loops as LP
            nst=LP.enter(s,st,fr,dst,loops[dst])
            if nst is None: return 'end'
            work.append(nst);return 'end'
        return None
    def branch(s,st,fr,c,l1,l2,work,sink):
        c=val_of(c)
        if c is UNDEF: s.oblige(st,False,'uninitialized','branch on an undefined value')
        if isinstance(c,bool): return s.goto(st,fr,l1 if c else l2,work,sink)
        cs=val_of(simp(c))
        if isinstance(cs,bool): return s.goto(st,fr,l1 if cs else l2,work,sink)
        a=st.clone();a.assume(c);b=st;b.assume(Not(c))
        fa=s.feasible(a)
        fb=s.feasible(b) if fa else True
        if fa:
            if s.goto(a,a.frames[-1],l1,work,sink)!='end': work.append(a)
        if fb:
            return s.goto(b,b.frames[-1],l2,work,sink)
        return 'end'
    def step(s,st,fr,ins,work,sink):
        op=ins.op;env=fr.env;mod=fr.fn.mod
        ov=lambda ty,v: s.opv(st,ty,v,env,mod)
        if op=='alloca':
            n=s.sz(ins.ty,mod)
            if ins.a is not None:
                c=ov(*ins.a);n=mul(n,c)
            b=st.new_block(ins.res,'stack',n);fr.allocas.append(b);env[ins.res]=Ptr(b,0)
        elif op=='load':
            p=ov(ir.PTR,ins.a[1])
            env[ins.res]=s.do_load(st,p,ins.ty,mod)
        elif op=='store':
            (ty,v),(_,p)=ins.a
            v=ov(ty,v);p=ov(ir.PTR,p)
            s.do_store(st,p,v,ty,mod)
        elif op=='getelementptr':
            env[ins.res]=s.gep(st,ins.ty,[(t,ov(t,v)) for t,v in ins.a],mod)
        elif op=='br':
            if len(ins.a)==1: return s.goto(st,fr,ins.a[0],work,sink)
            c=ov(I(1),ins.a[0][1])
            return s.branch(st,fr,c,ins.a[1],ins.a[2],work,sink)
        elif op=='switch':
            (ty,v),d,cs=ins.a;v=ov(ty,v)
            vv=val_of(v)
            if isinstance(vv,int):
                return s.goto(st,fr,dict(cs).get(vv,d),work,sink)
            rest=st
            for c,l in cs:
                a=rest.clone();a.assume(eq(v,c))
                if s.feasible(a):
                    if s.goto(a,a.frames[-1],l,work,sink)!='end': work.append(a)
                rest.assume(ne(v,c))
            if s.feasible(rest): return s.goto(rest,rest.frames[-1],d,work,sink)
            return 'end'
        elif op in('icmp','fcmp'):
            pr,a,b=ins.a;a=ov(ins.ty,a);b=ov(ins.ty,b)
            if op=='fcmp': env[ins.res]=s.fcmp(pr,a.t,b.t)
            else: env[ins.res]=s.icmp(st,pr,ins.ty,a,b)
        elif op in('add','sub','mul','udiv','sdiv','urem','srem','shl','lshr','ashr','and','or','xor','fmul','fdiv','fadd','fsub'):
            a,b,fl=ins.a;env[ins.res]=s.binop(st,op,ins.ty,ov(ins.ty,a),ov(ins.ty,b),fl)
        elif op in('trunc','zext','sext','ptrtoint','inttoptr','bitcast','uitofp','sitofp','fptoui','fptosi','fpext','fptrunc'):
            env[ins.res]=s.cast(st,op,ins.a[0],ov(*ins.a),ins.ty)
        elif op=='phi':
            for v,l in ins.a:
                if l==fr.prev: env[ins.res]=ov(ins.ty,v);break
            else: raise Unsupported('phi')
        elif op=='select':
            c,a,b=ins.a;c=val_of(ov(*c));a=ov(*a);b=ov(*b)
            if c is True: env[ins.res]=a
            elif c is False: env[ins.res]=b
            elif isinstance(a,(Ptr,)) or isinstance(b,Ptr): env[ins.res]=a if s.h.decide(st,c) else b
            else: env[ins.res]=If(c,a,b)
        elif op=='extractvalue':
            v=ov(*ins.a[0])
            for i in ins.a[1]: v=v.vs[i]
            env[ins.res]=v
        elif op=='insertvalue':
            (ty,v),e,ix=ins.a;v=ov(ty,v);e=ov(*e)
            def put(v,ix):
                vs=list(v.vs);vs[ix[0]]=e if len(ix)==1 else put(vs[ix[0]],ix[1:]);return Agg(vs)
            env[ins.res]=put(v,ix)
        elif op=='unreachable':
            return 'end'
        elif op in('call','invoke'):
            return s.call(st,fr,ins,work,sink)
        elif op=='ret':
            v=ov(*ins.a) if ins.a is not None else None
            return s.do_ret(st,v,work,sink)
        elif op=='fneg':
            a=ov(ins.ty,ins.a[0]);env[ins.res]=FloatV(z3.fpNeg(a.t))
        elif op=='landingpad':
            return s.land(st,fr,ins,work,sink)
        elif op=='resume':
            return s.unwind(st,work,sink)
        else: raise Unsupported('opcode '+op)
        fr=st.frames[-1]
        fr.idx+=1
    def do_load(s,st,p,ty,mod):
        if isinstance(p,VFunc): return p
        if not isinstance(p,Ptr): raise Unsupported('load from %r'%(p,))
        t=s.rty(ty,mod)
        if t.k=='st':
            return Agg([s.do_load(st,p.plus(s.foff(t,i,mod)),f,mod) for i,f in enumerate(t.fs)])
        if t.k=='arr':
            n=s.sz(t.el,mod);return Agg([s.do_load(st,p.plus(i*n),t.el,mod) for i in range(t.n)])
        return s.h.load(st,p,t,s.sz(t,mod))
    def do_store(s,st,p,v,ty,mod):
        if not isinstance(p,Ptr): raise Unsupported('store to %r'%(p,))
        t=s.rty(ty,mod)
        if t.k in('st','arr'):
            if not isinstance(v,Agg): raise Unsupported('aggregate store')
            for i,x in enumerate(v.vs):
                if t.k=='st': s.do_store(st,p.plus(s.foff(t,i,mod)),x,t.fs[i],mod)
                else: s.do_store(st,p.plus(i*s.sz(t.el,mod)),x,t.el,mod)
            return
        if v is UNDEF: v=UNDEF
        if t.k=='i' and t.w==1: pass
        s.h.store(st,p,v,t,s.sz(t,mod))
    # ------------------------------------------------------------ calls
    def contract(s,name):
        if name in s._cc: return s._cc[name]
        r=s.contracts.find(s.dem.get(name,name),name) if s.contracts else None
        s._cc[name]=r
        return r
    def call(s,st,fr,ins,work,sink):
        a=ins.a;env=fr.env;mod=fr.fn.mod
        cal=s.opv(st,ir.PTR,a['callee'],env,mod)
        args=[]
        for ty,v,at in a['args']:
            args.append(s.opv(st,ty,v,env,mod) if ty.k!='metadata' else None)
        tys=[t for t,_,_ in a['args']];ats=[x for _,_,x in a['args']]
        return s.invoke(st,fr,ins,cal,args,tys,ats,work,sink)
    def finish_call(s,st,ins,v,work,sink):
        fr=st.frames[-1]
        if ins.res is not None: fr.env[ins.res]=v
        if ins.op=='invoke': return s.goto(st,fr,ins.a['normal'],work,sink)
        fr.idx+=1
        return None
    def invoke(s,st,fr,ins,cal,args,tys,ats,work,sink):
        if isinstance(cal,VFunc):
            nm='virtual:%s:%s'%(cal.cls,cal.slot)
            c=s.contract(nm)
            if c is None: raise Unsupported('virtual call '+nm)
            return s.apply(st,ins,c,nm,args,tys,ats,work,sink)
        if isinstance(cal,Ptr) and isinstance(cal.base,OpaqueBase) and cal.base.cls.startswith('fn:') and cal.null is False and cal.off==0:
            c=s.contract('indirect:')
            if c is None: raise Unsupported('indirect call')
            import contracts as CT
            cx=CT.Call(s,st,c,'indirect:',args,tys,ats,'call');cx.fn=cal
            try: v=cx.run()
            except Thrown as t: return s.raised(st,ins,t.n,work,sink)
            return s.finish_call(st,ins,v,work,sink)
        if not isinstance(cal,Ptr) or not isinstance(cal.base,FuncBase):
            if isinstance(cal,Ptr) and (cal.base is None or cal.null is not False): s.oblige(st,False if cal.base is None else Not(cal.null),'null-pointer','call through a null pointer')
            raise Unsupported('indirect call %r'%(cal,))
        name=cal.base.name
        import ext
        e=ext.EXT.get(name) or (name.startswith('llvm.') and ext.intrinsic(name)) or None
        if e is None:
            e=ext.by_dem(s.dem.get(name,name))
        if e is not None:
            try: v=e(s,st,args,tys,fr)
            except Thrown as t: return s.raised(st,ins,t.n,work,sink)
            return s.finish_call(st,ins,v,work,sink)
        c=s.contract(name)
        if c is not None and c.o.get('calls')!='inline' and not (s.force_inline and s.force_inline(name)):
            s.used.add(s.dem.get(name,name))
            return s.apply(st,ins,c,name,args,tys,ats,work,sink)
        f=s.funcs.get(name)
        if f is None: raise Unsupported('external function '+s.dem.get(name,name))
        if len(st.frames)>60: raise Unsupported('call depth')
        s.inlined.add(s.dem.get(name,name))
        nf=Frame(f);nf.retdst=ins;nf.blk=f.order[0];nf.idx=0
        if f.vararg: nf.va=(args[len(f.params):],tys[len(f.params):])
        for (ty,at,nm),v in zip(f.params,args): nf.env[nm]=v
        st.frames.append(nf)
        return None
    force_inline=None
    def hints(s,f):
        c=s.contracts.find(f.dem,f.name) if f is not None else None
        return c.o.get('hints') if c else None
    full=False
    terminates=False
    strict=0
    loopn=0
    def do_ret(s,st,v,work,sink):
        fr=st.frames[-1]
        for b in fr.allocas:
            if b in st.mem:
                bad=s.h.owner_cells(st,b)
                if bad: s.oblige(st,False,'leak','object never destroyed: '+bad[0])
                d=st.mem[b]
                if d.arr is not None and d.arr[0].owner: s.oblige(st,eq(d.arr[2],d.arr[3]),'leak','array elements never destroyed')
                if d.ver is not None: st.dead.append(d.ver)
                del st.mem[b]
        if len(st.frames)==1 or st.ghost.get('base')==len(st.frames):
            sink(st,v);return 'end'
        for cx in fr.loops.values():
            if cx.mode=='collect': cx.exits.append(1);return 'end'
        st.frames.pop()
        return s.finish_call(st,fr.retdst,v,work,sink)
    def unwind(s,st,work,sink):
        """propagate the current exception out of the current frame"""
        while True:
            fr=st.frames[-1]
            for b in fr.allocas:
                if b in st.mem:
                    bad=s.h.owner_cells(st,b)
                    if bad: s.oblige(st,False,'leak','object not destroyed during unwinding: '+bad[0])
                    d=st.mem[b]
                    if d.arr is not None and d.arr[0].owner: s.oblige(st,eq(d.arr[2],d.arr[3]),'leak','array elements not destroyed during unwinding')
                    if d.ver is not None: st.dead.append(d.ver)
                    del st.mem[b]
            if len(st.frames)==1 or st.ghost.get('base')==len(st.frames):
                sink(st,('exception',st.exc));return 'end'
            for cx in fr.loops.values():
                if cx.mode=='collect': cx.exits.append(1);return 'end'
            st.frames.pop();ins=fr.retdst
            if ins.op=='invoke': return s.goto(st,st.frames[-1],ins.a['unwind'],work,sink)
    def apply(s,st,ins,c,name,args,tys,ats,work,sink):
        import contracts as CT
        cx=CT.Call(s,st,c,name,args,tys,ats,'call')
        try: v=cx.run()
        except Thrown as t: return s.raised(st,ins,t.n,work,sink)
        return s.finish_call(st,ins,v,work,sink)
    # ------------------------------------------------------------ exceptions
    throws=False
    def raised(s,st,ins,n,work,sink):
        """the call ends by throwing the exception n"""
        st.exc=n
        if ins.op=='invoke': return s.goto(st,st.frames[-1],ins.a['unwind'],work,sink)
        return s.unwind(st,work,sink)
    def is_a(s,n,ti):
        """the dynamic type of the exception n matches a handler for the type described by ti"""
        return z3.Bool('exception %s matches %s'%(n,ti))
    def land(s,st,fr,ins,work,sink):
        import ext
        clauses,clean=ins.a;sel=0
        for v in reversed(clauses):
            p=s.opv(st,ir.PTR,v,fr.env,fr.fn.mod)
            if p.base is None: sel=ext.type_id('any');continue
            sel=If(s.is_a(st.exc,p.base.name),ext.type_id(p.base.name),sel)
        if not clean and s.h.decide(st,eq(sel,0)): return s.unwind(st,work,sink)   # no handler here
        fr.env[ins.res]=Agg([Ptr(OpaqueBase(z3.Int('exception %s'%st.exc),'std::exception'),0,False),sel])
        fr.idx+=1
        return None
