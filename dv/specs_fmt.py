"""Contracts: formatting, numbers to text and back, type names and serializers (C06, C07, C18, C20)."""
from contracts import *
import specs_text,specs_vec,specs_value
from specs_text import *
import ext
from ext import EXT
STR='coil::String'
# ---------------------------------------------------------------- C-string view of a text
CUT=z3.Function('CUT',Txt,Txt)          # the part of a text before its first NUL byte
HASNUL=z3.Function('HASNUL',Txt,BoolS)
def cut(c,v):
    """the text a C-string reader sees of the given view / literal bytes"""
    ps=pieces(c,v)
    if all(isinstance(p,bytes) for p in ps): return b''.join(ps).split(b'\0')[0]
    out=[]
    for p in ps:
        if isinstance(p,bytes):
            out.append(p.split(b'\0')[0])
            if b'\0' in p: break
        elif nulfree(p): out.append(p)
        else: out=None;break
    if out is not None: return canon_txt(c,out)[0]
    t=v.txt;r=CUT(t)
    c.fact(TLEN(t)==zi(v.l),TLEN(r)<=TLEN(t),TLEN(r)>=0,z3.Implies(z3.Not(HASNUL(t)),r==t))
    return r
def nulfree(t): return z3.is_app(t) and t.decl().name() in('DECIMAL','GENERAL6','GENERAL6L','CUT','JOINED_COUNTS')
def cview(c,p,what='text'):
    """view from p to the terminator that is known to follow"""
    c.h.deref_checks(c.st,p,what)
    b,o=c.h.as_text(c.st,p);c.h.alive_text(c.st,b,what)
    if isinstance(b,int) and b in c.ex.litbytes:
        ov=val_of(simp(o)) if isz(o) else o
        if isinstance(ov,int): return SVV(b,ov,c.ex.litbytes[b].index(b'\0',ov)-ov)
    w=c.st.ghost.get(('nul',b if isinstance(b,int) else b.get_id()))
    z=w if w is not None else sub(BSZ(zi(b)),1)
    c.ex.oblige(c.st,And(le(0,o),le(o,z),lt(z,BSZ(zi(b))),eq(z3.Select(CH(zi(b)),zi(z)),0)),'bounds','text without terminator')
    return SVV(b,o,sub(z,o))
# ---------------------------------------------------------------- formatting
DECS=DECU=z3.Function('DECIMAL',IntS,Txt)    # shortest decimal notation of an integer
G6=z3.Function('GENERAL6',FPS['double'],Txt);G6L=z3.Function('GENERAL6L',FPS['long double'],Txt)
FMTT=z3.Function('FORMATTED',Txt,IntS,Txt)      # what formatting with an unknown format gives
FARR=z3.Function('FORMATTED_BYTES',Txt,z3.ArraySort(IntS,IntS))
LIMIT='a formatted message, and each text put into one, is shorter than 2^31 bytes and formatting does not fail'
def dec(c,n,w,signed):
    """shortest decimal notation of the w-bit value n"""
    n=val_of(n)
    if isinstance(n,int): return str(n-(1<<w) if signed and n>=1<<(w-1) else n).encode()
    t=DECS(sgn(n,w)) if signed else DECU(n)
    c.fact(TLEN(t)>=1,TLEN(t)<=21);return t
def sgn(n,w): return z3.If(n>=(1<<(w-1)),n-(1<<w),n) if isz(n) else (n-(1<<w) if n>=1<<(w-1) else n)
def byte_of(x):
    """the unsigned char an int argument is converted to"""
    x=val_of(simp(x)) if isz(x) else x
    if isinstance(x,int): return x%256
    if z3.is_app(x) and x.decl().kind()==z3.Z3_OP_ITE:
        b=x.arg(2)
        if val_of(simp(x.arg(1)-b))==(1<<32)-256 and z3.is_app(b) and b.decl().kind()==z3.Z3_OP_SELECT: return b
    return x%256
def fmt_parts(c,f,vals,tys):
    """what ISO C's printf family makes of the format (literal bytes) and the arguments"""
    out=[];i=0;k=0
    def arg(kind,w=None):
        nonlocal k
        if k>=len(vals): c.ex.oblige(c.st,False,'format','too few arguments for the format');raise Infeasible()
        v,t=vals[k],tys[k];k+=1
        if t.k!=kind or (w and t.w!=w):
            c.ex.oblige(c.st,False,'format','argument %d has another type than the format says'%k);raise Infeasible()
        return v
    while i<len(f):
        j=f.find(b'%',i)
        if j<0: out.append(f[i:]);break
        if j>i: out.append(f[i:j])
        m=re.match(rb'%(\.\*)?(hh|h|ll|l|z|L)?([diuscgp%])',f[j:])
        if not m: raise Unsupported('format %r'%f)
        prec,ln,cv=m.groups();i=j+m.end()
        if cv==b'%': out.append(b'%');continue
        n=None
        if prec is not None:
            n=arg('i',32)
            if cv!=b's': raise Unsupported('precision')
        if cv==b's':
            p=arg('ptr')
            if n is None: out.append(cut(c,cview(c,p)))
            else:
                # at most n bytes, fewer if a NUL comes first
                c.h.deref_checks(c.st,p,'%.*s')
                b,o=c.h.as_text(c.st,p);c.h.alive_text(c.st,b,'%.*s')
                c.ex.oblige(c.st,lt(n,1<<31),'format','negative precision')
                c.ex.oblige(c.st,And(le(0,o),le(add(o,n),BSZ(zi(b)))),'bounds','%.*s reads past the text')
                out.append(cut(c,SVV(b,o,n)))
        elif cv in b'diu':
            if ln in(b'h',b'hh'): raise Unsupported('short directive')
            w={None:32,b'l':64,b'll':64,b'z':64}[ln];out.append(dec(c,arg('i',w),w,cv!=b'u'))
        elif cv==b'c': out.append(char_txt(c,byte_of(arg('i',32))))
        elif cv==b'g':
            v=arg('f',80 if ln==b'L' else 64);t=(G6L if ln==b'L' else G6)(v.t);c.fact(TLEN(t)>=1,TLEN(t)<=64);out.append(t)
        else: raise Unsupported('format %r'%f)
    return out
def formatted(c,fmt,va):
    """the text made by the format at fmt from the arguments va"""
    c.ex.assumed.add('vsnprintf formats as ISO C specifies; '+LIMIT)
    v=cview(c,fmt,'format')
    ps=pieces(c,v)
    if all(isinstance(p,bytes) for p in ps) and not isz(va):
        vals,tys=va;return message(c,fmt_parts(c,b''.join(ps),vals,tys))
    t=formatted_txt(c,v,va);r=c.text(TLEN(t),FARR(t),txt=t);r.ghost_text=True;PIECES[r.txt.get_id()]=(r.txt,[t]);return r
def formatted_txt(c,v,va):
    x=cut(c,v) if not isinstance(v,z3.ExprRef) else v
    t=FMTT(x if not isinstance(x,bytes) else lit_txt(c,x),va if isz(va) else fresh_int('va'))
    c.fact(TLEN(t)>=0,TLEN(t)<(1<<31)-1);return t
def valist(c,p):
    """the arguments a va_list stands for; using it consumes it"""
    k=('va',c.h.canon(c.st,p).base,c.h.canon(c.st,p).off)
    if k not in c.st.ghost: raise Unsupported('unknown va_list')
    v=c.st.ghost[k]
    if v=='used' if isinstance(v,str) else False: c.ex.oblige(c.st,False,'format','va_list used twice');raise Infeasible()
    c.st.ghost[k]='used';return v
class Ctx:
    """just enough of a Call for external functions"""
    def __init__(s,ex,st): s.ex=ex;s.st=st;s.h=ex.h;s.mode='call'
    def fact(s,*a): s.st.assume(*a)
    def text(s,*a,**k): return Call.text(s,*a,**k)
def _vsnprintf(ex,st,a,t,fr):
    c=Ctx(ex,st);buf,n,fmt,va=a
    ex.assumed.add('vsnprintf formats as ISO C specifies; '+LIMIT)
    v=cview(c,fmt,'format');va=valist(c,va)
    if not isz(va): raise Unsupported('vsnprintf with a known argument list')
    tx=formatted_txt(c,v,va);L=TLEN(tx);A=FARR(tx)
    if buf.base is None:
        ex.oblige(st,eq(n,0),'bounds','vsnprintf writes through a null pointer');return L
    if ex.h.decide(st,eq(n,0)): return L
    p=ex.h.canon(st,buf)
    if isinstance(p.base,TextBase): p=ex.h.raw_text(st,p)
    if not isinstance(p.base,Block): raise Unsupported('vsnprintf into %r'%(p,))
    d=ex.h.live(st,p.base,'vsnprintf');ex.h.bounds(st,p,n,'vsnprintf')
    if d.arr is None: ex.h.ensure_arr(st,p.base,ex.types.get('char'));d=st.mem[p.base]
    if d.arr[0].size!=1: raise Unsupported('vsnprintf into typed storage')
    w=If(le(L,sub(n,1)),L,sub(n,1));ex.h.kill_ver(st,p.base);d=st.w(p.base)
    N=z3.Const(fresh_name('printed'),d.arr[1].sort());O=d.arr[1];j=z3.Int('vj');o=zi(p.off)
    st.assume(z3.ForAll([j],z3.Select(N,j)==z3.If(z3.And(j>=o,j<o+zi(w)),z3.Select(A,j-o),z3.If(j==o+zi(w),0,z3.Select(O,j))),patterns=[z3.Select(N,j)]))
    d.arr[1]=N;return L
EXT['vsnprintf']=_vsnprintf
@contract(r'coil::vsprintf\(char const\*, __va_list_tag\*\)',vaparam=True)
def c_vsprintf(c):
    p=c.params[1][1]
    if c.mode=='spec':
        v=cstr_full(c,c.p(0))
        t=formatted_txt(c,v,VAARGS);r=c.text(TLEN(t),FARR(t),txt=t)
        c.ret(c.T(STR),r);return
    c.ret(c.T(STR),formatted(c,c.p(0),valist(c,p)))
def cstr_full(c,p):
    """a parameter that is a C string: the view up to its terminator"""
    b,o=c.h.as_text(c.st,p)
    z=fresh_int('nul');c.fact(le(o,z),lt(z,BSZ(zi(b))),eq(z3.Select(CH(zi(b)),z),0));c.st.ghost[('nul',b if isinstance(b,int) else b.get_id())]=z
    return SVV(b,o,sub(z,o))
@contract(r'coil::sprintf\(char const\*, \.\.\.\)')
def c_sprintf(c):
    if c.mode=='spec':
        v=cstr_full(c,c.p(0));t=formatted_txt(c,v,VAARGS);r=c.text(TLEN(t),FARR(t),txt=t);r.ghost_text=True;c.ret(c.T(STR),r);return
    n=len(c.params)-1
    vals=c.params[n][1];tys=c.tys[len(c.args)-len(vals):]
    c.ret(c.T(STR),formatted(c,c.p(0),(vals,tys)))
# ---------------------------------------------------------------- numbers to text
W={'char':(8,True),'signed char':(8,True),'unsigned char':(8,False),'short':(16,True),'unsigned short':(16,False),'int':(32,True),'unsigned int':(32,False),'unsigned':(32,False),
   'long':(64,True),'unsigned long':(64,False),'long long':(64,True),'unsigned long long':(64,False)}
def number_text(c,T_,v):
    """the text form of a number"""
    if T_.name in W: return message(c,[dec(c,v,*W[T_.name])])
    d=FPS['double']
    lim=z3.FPVal(1e-6,d);x=v.t
    if T_.name=='long double': lim=z3.simplify(z3.fpFPToFP(z3.RNE(),lim,FPS['long double']))
    elif T_.name=='float': x=z3.fpFPToFP(z3.RNE(),x,d)
    if c.case(z3.fpLT(z3.fpAbs(x),lim)): return message(c,[b'0'])
    t=(G6L if T_.name=='long double' else G6)(x);c.fact(TLEN(t)>=1,TLEN(t)<=64);return message(c,[t])
NUM='|'.join(re.escape(x) for x in list(W)+['float','double','long double'])
@contract(r'coil::toString\((%s)\)'%NUM)
def to_string(c):
    c.ret(c.T(STR),number_text(c,c.T(c.ptype(0)),pval(c,0)))
# ---------------------------------------------------------------- text to numbers
# The longest prefix of a text that is a decimal numeral (leading whitespace, optional sign, digits): where it ends, its value.
PEND=z3.Function('NUMERAL_END',Txt,IntS);PVAL=z3.Function('NUMERAL_VALUE',Txt,IntS);PNEG=z3.Function('NUMERAL_HAS_MINUS',Txt,BoolS);MINUS=z3.Function('MINUS_AT',Txt,IntS)
# the grammar: whitespace, an optional sign, one or more digits
VALP=SpecFn('DIGITS_VALUE',[z3.ArraySort(IntS,IntS),IntS,IntS],IntS,lambda A,o,n:[z3.Implies(n<=0,VALP(A,o,n)==0),z3.Implies(n>0,VALP(A,o,n)==10*VALP(A,o,n-1)+(z3.Select(A,o+n-1)-48))])
WSN=z3.Function('LEADING_WHITESPACE',Txt,IntS)
def isspace(x): return z3.Or(x==32,z3.And(x>=9,x<=13))
def isdigit(x): return z3.And(x>=48,x<=57)
def ws_facts(t,A,o,l):
    w=WSN(t);j=z3.Int('wj')
    return [w>=0,w<=l,z3.ForAll([j],z3.Implies(z3.And(j>=o,j<o+w),isspace(z3.Select(A,j))),patterns=[z3.Select(A,j)]),z3.Implies(w<l,z3.Not(isspace(z3.Select(A,o+w))))]
def grammar(t,A,o,l,j):
    """(the whole text is a numeral, its sign is minus, its value); j: the variable of the digit clause"""
    w=WSN(t);x=z3.Select(A,o+w);s=z3.If(z3.And(w<l,z3.Or(x==43,x==45)),1,0);neg=z3.And(w<l,x==45)
    dig=z3.ForAll([j],z3.Implies(z3.And(j>=o+w+s,j<o+l),isdigit(z3.Select(A,j))),patterns=[z3.Select(A,j)])
    v=VALP(A,o+w+s,l-w-s)
    return z3.And(w+s<l,dig),neg,z3.If(neg,-v,v)
def roundtrip_lemma():
    """the decimal notation of n is a numeral of value n (so every integer reads back as itself)"""
    t0=time.time();D=z3.Const('D',z3.ArraySort(IntS,IntS));n,L,j,k=z3.Ints('n L j k');t=z3.Const('t',Txt);res=[]
    d0=z3.If(n<0,1,0)
    notation=[L>d0,z3.Implies(n<0,z3.Select(D,0)==45),z3.ForAll([k],z3.Implies(z3.And(k>=d0,k<L),isdigit(z3.Select(D,k))),patterns=[z3.Select(D,k)]),VALP(D,d0,L-d0)==z3.If(n<0,-n,n)]
    first=isdigit(z3.Select(D,d0))          # an instance of the digit clause
    g,neg,val=grammar(t,D,z3.IntVal(0),L,j)
    base=notation+ws_facts(t,D,z3.IntVal(0),L)
    r1,_=valid(base,first,5000,0)
    r2,_=valid(base+[first],WSN(t)==0,5000,0)
    pre=base+[first,WSN(t)==0,z3.Implies(n>=0,z3.And(z3.Select(D,0)>=48,z3.Select(D,0)<=57))]
    r2b,_=valid(base+[first],z3.Implies(n>=0,z3.And(z3.Select(D,0)>=48,z3.Select(D,0)<=57)),5000,0)
    r3,_=valid(pre,g,5000,0)
    r4,_=valid(pre,z3.And(neg==(n<0),val==n),5000,0)
    for T_,(w,s) in W.items():
        lo,hi=(-(1<<(w-1)),(1<<(w-1))-1) if s else (0,(1<<w)-1)
        p=[PEND(t)==L,PVAL(t)==n,PNEG(t)==(n<0),L>0,n>=lo,n<=hi]
        r,_=valid(p,z3.And(PEND(t)==L,PEND(t)>0,PVAL(t)>=lo,PVAL(t)<=hi,*([] if s else [z3.Not(PNEG(t))])),3000,0);res.append(r)
    return dict(lemma='the decimal notation of n, read back, gives n (every integer type)',ok=all(x is True for x in [r1,r2,r2b,r3,r4]+res),t=round(time.time()-t0,2),parts=[str(x) for x in [r1,r2,r2b,r3,r4]+res])
LEMMAS={'roundtrip':roundtrip_lemma}
def numeral_facts(c,v):
    t=v.txt;(b,o,l)=rng(v);A=CH(zi(b));j=z3.Int('nj')
    g,neg,val=grammar(t,A,zi(o),zi(l),z3.Int('gj'))
    c.fact(*ws_facts(t,A,zi(o),zi(l)),z3.Implies(z3.And(PEND(t)==zi(l),zi(l)>0),z3.And(g,PNEG(t)==neg,PVAL(t)==val)))
    c.fact(PEND(t)>=0,PEND(t)<=zi(l),z3.Implies(PNEG(t),z3.And(PVAL(t)<=0,MINUS(t)>=0,MINUS(t)<PEND(t),z3.Select(A,zi(o)+MINUS(t))==45)),z3.Implies(z3.Not(PNEG(t)),PVAL(t)>=0),
      z3.Implies(PEND(t)==0,z3.And(z3.Not(PNEG(t)),PVAL(t)==0)),
      z3.ForAll([j],z3.Implies(z3.And(j>=zi(o),j<zi(o)+PEND(t),z3.Select(A,j)==45),PNEG(t)),patterns=[z3.Select(A,j)]))
FEND={k:z3.Function('FLOAT_END_'+k,Txt,IntS) for k in FPS};FVAL={k:z3.Function('FLOAT_VALUE_'+k,Txt,s) for k,s in FPS.items()};FERR={k:z3.Function('FLOAT_RANGE_ERROR_'+k,Txt,BoolS) for k in FPS}
def errno_set(ex,st,v):
    p=ext._errno(ex,st,None,None,None);st.w(p.base).cells[0]=(4,ex.types.get('int'),v)
def errno_get(ex,st):
    p=ext._errno(ex,st,None,None,None);return st.mem[p.base].cells[0][2]
def set_end(ex,st,a,b,o,e):
    if a[1].base is None: return
    if a[1].null is not False: raise Unsupported('possibly null end pointer')
    ex.h.store(st,a[1],ex.h.canon(st,Ptr(TextBase(b),add(o,e))),ir.PTR,8)
def strto_int(w,signed):
    def f(ex,st,a,t,fr):
        ex.assumed.add('strtol family parses the longest decimal numeral and reports range errors as ISO C specifies')
        c=Ctx(ex,st);v=cview(c,a[0],'strto*')
        if val_of(a[2])!=10: raise Unsupported('number base')
        (b,o,l)=rng(v);T=v.txt;numeral_facts(c,v)
        # what counts is the text before the first NUL, which the numeral never reaches beyond
        x=PVAL(T);e=PEND(T)
        c.fact(x<0 if False else True)
        set_end(ex,st,a,b,o,e)
        lo,hi=(-(1<<(w-1)),(1<<(w-1))-1) if signed else (-((1<<w)-1),(1<<w)-1)
        r=fresh_int('num');M=1<<w
        inr=z3.And(x>=lo,x<=hi)
        st.assume(le(0,r),lt(r,M),z3.Implies(inr,r==z3.If(x<0,x+M,x)))
        if signed: st.assume(z3.Implies(x<lo,r==(1<<(w-1))),z3.Implies(x>hi,r==hi))
        else: st.assume(z3.Implies(z3.Not(inr),r==hi))
        old=errno_get(ex,st);n=fresh_int('errno')
        st.assume(z3.Implies(z3.And(inr,e>0),n==zi(old)),z3.Implies(z3.Not(inr),n==34),z3.Implies(e==0,z3.Or(n==zi(old),n==22)))
        errno_set(ex,st,n)
        return r
    return f
for n_,w_,s_ in(('strtol',64,True),('strtoll',64,True),('strtoul',64,False),('strtoull',64,False)):
    EXT[n_]=EXT['__isoc23_'+n_]=strto_int(w_,s_)
def strto_f(k):
    def f(ex,st,a,t,fr):
        ex.assumed.add('strtof/strtod/strtold convert the longest numeral and report range errors as ISO C specifies')
        c=Ctx(ex,st);v=cview(c,a[0],'strto*');(b,o,l)=rng(v);T=v.txt
        e=FEND[k](T);c.fact(e>=0,e<=zi(l));set_end(ex,st,a,b,o,e)
        old=errno_get(ex,st);n=fresh_int('errno')
        st.assume(z3.Implies(FERR[k](T),n==34),z3.Implies(z3.Not(FERR[k](T)),z3.Or(n==zi(old),z3.And(e==0,n==22))),z3.Implies(e==0,z3.Not(FERR[k](T))))
        errno_set(ex,st,n)
        return FloatV(FVAL[k](T))
    return f
for n_,k_ in(('strtof','float'),('strtod','double'),('strtold','long double')): EXT[n_]=strto_f(k_)
def parsed(c,T_,v):
    """(accepted, value) of reading the text v as a number of type T_"""
    t=v.txt;l=rng(v)[2]
    if T_.name in W:
        w,s=W[T_.name];numeral_facts(c,v)
        lo,hi=(-(1<<(w-1)),(1<<(w-1))-1) if s else (0,(1<<w)-1)
        ok=z3.And(PEND(t)==zi(l),PEND(t)>0,PVAL(t)>=lo,PVAL(t)<=hi,*([] if s else [z3.Not(PNEG(t))]))
        return ok,z3.If(PVAL(t)<0,PVAL(t)+(1<<w),PVAL(t))
    k=T_.name;c.fact(FEND[k](t)>=0,FEND[k](t)<=zi(l))
    return z3.And(FEND[k](t)==zi(l),zi(l)>0,z3.Not(FERR[k](t))),FloatV(FVAL[k](t))
@contract(r'coil::fromString\(coil::StringView, (%s)&\)'%NUM,uninit=('p1',))
def from_string(c):
    T_=c.T(pref(c.params[1][0]));v=c.p(0);p=c.params[1][1]
    c.h.alive_text(c.st,v.b,'text to convert')
    ok,x=parsed(c,T_,v)
    errno_havoc(c)
    if c.case(ok):
        out_write(c,p,T_,x)
        c.ret(c.T('bool'),True)
    else:
        out_forget(c,p,T_);c.ret(c.T('bool'),False)
def errno_havoc(c):
    if c.mode=='call':
        n=fresh_int('errno');c.fact(le(0,n),lt(n,1<<31));errno_set(c.ex,c.st,n)
def out_write(c,p,T_,x):
    if c.mode=='spec': c.init(p,T_,x)
    else: c.h.store(c.st,p,x,irty_of(T_),T_.size)
def irty_of(T_):
    return {'float':ir.FL['float'],'double':ir.FL['double'],'long double':ir.FL['x86_fp80']}[T_.name] if T_.kind=='float' else ir.I(T_.size*8)
def out_forget(c,p,T_):
    """the output object may or may not have been written"""
    if c.mode=='spec': return
    q=c.h.canon(c.st,p);o=c.h.coff(c.st,q)
    if not isinstance(q.base,Block) or o is None: raise Unsupported('output parameter')
    d=c.st.w(q.base);cell=d.cells.get(o)
    if cell is None or cell[2] is UNDEF: return
    if T_.kind=='int': 
        n=fresh_int('garbage');c.fact(le(0,n),lt(n,1<<T_.w));d.cells[o]=(cell[0],cell[1],n)
    else: d.cells[o]=(cell[0],cell[1],c.ex.sorts.const(T_,'garbage'))
@contract(r'char const\* coil::find<char const\*, char>\(char const\*, char const\*, char const&\)',hints=lambda ex,g,entry,h,ints,arrs:find_hints(ex,g,entry,h,ints,arrs),alias=[{'char const*':lambda s:find_range(s)}],onlyalias=True,terminates=True)
def find_char(c):
    p,q=c.p(0),c.p(1);x=c.rd(c.params[2][1],c.T('char'))
    b,o=c.h.as_text(c.st,p);b2,o2=c.h.as_text(c.st,q)
    c.req(And(eq(b,b2),le(o,o2),le(0,o),le(o2,BSZ(zi(b)))),'the range lies in one text')
    r=fresh_int('found');A=CH(zi(b));j=z3.Int('fj')
    c.fact(le(o,r),le(r,o2),Implies(lt(r,o2),eq(z3.Select(A,r),zi(x))),z3.ForAll([j],z3.Implies(z3.And(j>=zi(o),j<r),z3.Select(A,j)!=zi(x)),patterns=[z3.Select(A,j)]))
    c.ret(c.T('char*'),c.h.canon(c.st,Ptr(TextBase(b),r)))
def find_range(s):
    """the two parameters are the ends of a range of one text"""
    st=s.st
    if not hasattr(s,'rng'):
        b=z3.Int(fresh_name('range.b'));o=z3.Int(fresh_name('range.o'));e=z3.Int(fresh_name('range.e'))
        st.assume(lt(0,b),lt(b,INPUT_ID_MAX),le(0,o),le(o,e),le(e,BSZ(b)),lt(BSZ(b),MAXLEN));s.views.append(b);s.rng=(b,e);return Ptr(TextBase(b),o,False)
    return Ptr(TextBase(s.rng[0]),s.rng[1],False)
def find_hints(ex,g,entry,h,ints,arrs):
    out=[]
    for L in ints:
        if L.sub and L.sub[-1]=='off' and L.b is not None:
            c=entry.mem[L.b].cells.get(L.off);p=c[2] if c else None
            if isinstance(p,Ptr) and isinstance(p.base,TextBase):
                for bb,d in entry.mem.items():
                    v=d.cells.get(0)
                    if bb.kind=='param' and v is not None and v[1] is not None and v[1].name=='char':
                        x=v[2];A=CH(zi(p.base.bid));j=z3.Int('fhj')
                        out.append(('not found before %s'%L.name,lambda st,L=L,A=A,x=x,o=p.off:z3.ForAll([j],z3.Implies(z3.And(j>=zi(o),j<zi(L.get(ex,st))),z3.Select(A,j)!=zi(x)),patterns=[z3.Select(A,j)])))
    return out
