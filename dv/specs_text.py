"""Contracts: StringView, String, hashing, comparison (C11, C22)."""
from contracts import *

SV='coil::StringView'
@contract(r'coil::StringView::StringView\(char const\*, unsigned long\)')
def sv_ctor(c):
    T=c.T(SV);p=c.p(0);n=c.p(1)
    b,o=c.h.as_text(c.st,p)
    c.req(And(le(0,o),le(add(o,n),BSZ(zi(b)))),'the bytes of the view exist')
    c.init(c.this,T,SVV(b,o,n))
@contract(r'coil::StringView::(length|slength)\(\) const')
def sv_length(c):
    v=c.rd(c.this,c.T(SV))
    if c.last=='slength':
        if c.mode=='call': c.ex.assumed.add('texts measured by slength are shorter than 2^31 bytes')
        c.fact(lt(v.l,1<<31));c.ret(c.T('int'),v.l)
    else: c.ret(c.T('unsigned long'),v.l)
@contract(r'coil::StringView::empty\(\) const')
def sv_empty(c): c.ret(c.T('bool'),eq(c.rd(c.this,c.T(SV)).l,0))
@contract(r'coil::StringView::(data|begin|end)\(\) const')
def sv_data(c):
    v=c.rd(c.this,c.T(SV));o=v.o if c.last!='end' else add(v.o,v.l)
    c.ret(c.T('char*'),c.h.canon(c.st,Ptr(TextBase(v.b),o)))
@contract(r'coil::StringView::substr\(unsigned long, unsigned long\) const')
def sv_substr(c):
    v=c.rd(c.this,c.T(SV));o,n=c.p(0),c.p(1)
    c.req(le(add(o,n),v.l),'the part lies inside the text')
    c.ret(c.T(SV),SVV(v.b,add(v.o,o),n))
@contract(r'coil::StringView::operator\[\]\(unsigned long\) const')
def sv_index(c):
    v=c.rd(c.this,c.T(SV));i=c.p(0);c.req(lt(i,v.l),'index inside the text')
    c.ret(c.T('char*'),c.h.canon(c.st,Ptr(TextBase(v.b),add(v.o,i))))
@contract(r'coil::operator(==|!=)\(coil::StringView const&, coil::StringView const&\)',alias=[{('same','p1'):0}])
def sv_eq(c):
    T=c.T(SV);a,b=c.rd(c.p(0),T),c.rd(c.p(1),T)
    e=teq(c.ex,c.st,a,b)
    c.ret(c.T('bool'),e if c.last=='operator==' else Not(e))
@contract(r'coil::StringView::StringView\(char const\*\)')
def sv_cstr(c):
    T=c.T(SV);p=c.p(0);b,o=c.h.as_text(c.st,p)
    if c.mode=='spec':
        z=fresh_int('nul');c.fact(le(o,z),lt(z,BSZ(zi(b))),eq(z3.Select(CH(zi(b)),z),0));c.st.ghost[('nul',b if isinstance(b,int) else b.get_id())]=z
        c.st.carry=True
        n=ext.strlen_of(c.ex,c.st,b,o,False);c.fact(le(n,sub(z,o)))
    else: n=ext._strlen(c.ex,c.st,[p],None,None)
    c.init(c.this,T,SVV(b,o,n))

# ---------------------------------------------------------------- String
STR='coil::String'
def copy_of(c,v,ok=True):
    """a new text with the bytes of v"""
    (b,o,l)=rng(v);A=CH(zi(b))
    r=c.text(l,lambda j:z3.Select(A,j+zi(o)),ok=ok)
    same_text(c,r,v)
    return r
def cat_of(c,v,w):
    """a new text: the bytes of v followed by those of w"""
    (b1,o1,l1),(b2,o2,l2)=rng(v),rng(w);A,B=CH(zi(b1)),CH(zi(b2))
    r=c.text(add(l1,l2),lambda j:z3.If(j<zi(l1),z3.Select(A,j+zi(o1)),z3.Select(B,j+zi(sub(o2,l1)))))
    c.fact(lt(add(l1,l2),MAXLEN))
    joined(c,r,[v,w])
    return r
CAT=z3.Function('CAT',Txt,Txt,Txt)
# ---- texts as concatenations of pieces (associativity and adjacent literals are normalised away)
PIECES={}
def lit_txt(c,data):
    """the text with these bytes"""
    t=z3.Const('lit:'+data.hex(),Txt)
    c.fact(TLEN(t)==len(data));return t
def pieces(c,v):
    if isinstance(v,bytes): return [v]
    if isinstance(v,z3.ExprRef): r=PIECES.get(v.get_id());return r[1] if r else [v]
    t=v.txt;r=PIECES.get(t.get_id())
    if r: return r[1]
    (b,o,l)=rng(v)
    b,o,l=val_of(simp(b)) if isz(b) else b,val_of(simp(o)) if isz(o) else o,val_of(simp(l)) if isz(l) else l
    if isinstance(b,int) and b in c.ex.litbytes and isinstance(o,int) and isinstance(l,int):
        d=c.ex.litbytes[b][o:o+l]
        c.fact(t==lit_txt(c,d));return [d]
    if isinstance(l,int) and l==0:
        c.fact(t==lit_txt(c,b''));return []
    c.fact(TLEN(t)==zi(l));return [t]
def canon_txt(c,ps):
    """(term, pieces) of a concatenation"""
    out=[]
    for p in ps:
        if isinstance(p,bytes) and out and isinstance(out[-1],bytes): out[-1]=out[-1]+p
        elif p!=b'' if isinstance(p,bytes) else True: out.append(p)
    if not out: return lit_txt(c,b''),[]
    ts=[lit_txt(c,p) if isinstance(p,bytes) else p for p in out]
    r=ts[0]
    for t in ts[1:]: r=CAT(r,t)
    if len(out)>1: PIECES[r.get_id()]=(r,out)
    return r,out
def joined(c,r,vs):
    """records that the text r is the concatenation of vs"""
    t,ps=canon_txt(c,[p for v in vs for p in pieces(c,v)])
    c.fact(r.txt==t)
    if len(vs)==2 and not any(isinstance(v,bytes) for v in vs):
        a,b=vs;la,lb=(v.l if not isinstance(v,z3.ExprRef) else TLEN(v) for v in vs);ta,tb=(v.txt if not isinstance(v,z3.ExprRef) else v for v in vs)
        c.fact(r.txt==CAT(ta,tb),Implies(eq(la,0),r.txt==tb),Implies(eq(lb,0),r.txt==ta))
    PIECES[r.txt.get_id()]=(r.txt,ps)
    return r
def same_text(c,r,v):
    c.fact(r.txt==v.txt)
    PIECES[r.txt.get_id()]=(r.txt,pieces(c,v))
def message(c,parts):
    """a new text: the concatenation of the parts (bytes, texts, views)"""
    ps=[p for v in parts for p in pieces(c,v)]
    t,out=canon_txt(c,ps)
    l=0
    for p in out: l=add(l,len(p) if isinstance(p,bytes) else TLEN(p))
    for p in out:
        if not isinstance(p,bytes): c.fact(TLEN(p)>=0)
    r=c.text(l,txt=t);c.fact(lt(l,MAXLEN));r.ghost_text=True
    if len(out)==1 and isinstance(out[0],bytes):
        d=out[0];c.fact(*[z3.Select(CH(zi(r.b)),i)==d[i] for i in range(min(len(d),40))])
    PIECES[r.txt.get_id()]=(r.txt,out)
    return r
def ptr_view(c,p,n):
    b,o=c.h.as_text(c.st,p)
    c.req(And(le(0,o),le(0,n),le(add(o,n),BSZ(zi(b)))),'the given bytes exist')
    c.h.alive_text(c.st,b,'source text')
    return SVV(b,o,n)
def cstr_view(c,p):
    b,o=c.h.as_text(c.st,p)
    if c.mode=='spec':
        z=fresh_int('nul');c.fact(le(o,z),lt(z,BSZ(zi(b))),eq(z3.Select(CH(zi(b)),z),0));c.st.ghost[('nul',b if isinstance(b,int) else b.get_id())]=z
        n=ext.strlen_of(c.ex,c.st,b,o,False);c.fact(le(n,sub(z,o)))
    else: n=ext._strlen(c.ex,c.st,[p],None,None)
    return SVV(b,o,n)
SMALL=1<<50
@contract(r'coil::String::String\(char const\*\)')
def str_cstr(c): c.init(c.this,c.T(STR),copy_of(c,cstr_view(c,c.p(0))))
@contract(r'coil::String::String\(coil::StringView\)')
def str_sv(c): c.init(c.this,c.T(STR),copy_of(c,c.p(0)))
@contract(r'coil::String::String\(char const\*, unsigned long\)')
def str_pl(c): c.init(c.this,c.T(STR),copy_of(c,ptr_view(c,c.p(0),c.p(1))))
@contract(r'coil::String::String\(coil::String const&\)')
def str_copy(c):
    v=c.rd(c.p(0),c.T(STR))
    c.init(c.this,c.T(STR),copy_of(c,v,ok=v.ok))
@contract(r'coil::String::String\(coil::String&&\)')
def str_move(c):
    T=c.T(STR);v=c.rd(c.p(0),T);c.init(c.this,T,v);c.wr(c.p(0),T,StrV(0,0,False))
@contract(r'coil::String::operator=\(coil::String const&\)',alias=[{('same','p0'):0}])
def str_assign(c):
    T=c.T(STR);v=c.rd(c.p(0),T);old=c.rd(c.this,T)
    n=copy_of(c,v,ok=v.ok)
    c.h.kill_texts(c.st,T,old);c.wr(c.this,T,n)
    c.ret(c.T('coil::String*'),c.this)
@contract(r'coil::String::operator=\(coil::String&&\)',alias=[{('same','p0'):0}])
def str_massign(c):
    T=c.T(STR);v=c.rd(c.p(0),T);old=c.rd(c.this,T)
    if c.h.canon(c.st,c.this).base is c.h.canon(c.st,c.p(0)).base and c.case(eq(c.this.off,c.p(0).off)):
        pass
    else:
        c.h.kill_texts(c.st,T,old)
        c.wr(c.p(0),T,UnspecV(T));c.wr(c.this,T,v)
    c.ret(c.T('coil::String*'),c.this)
@contract(r'coil::String::~String\(\)')
def str_dtor(c): c.kill(c.this,c.T(STR))
@contract(r'coil::String::(length|slength)\(\) const')
def str_length(c):
    v=c.rd(c.this,c.T(STR))
    if c.last=='slength':
        if c.mode=='call': c.ex.assumed.add('texts measured by slength are shorter than 2^31 bytes')
        c.fact(lt(v.l,1<<31));c.ret(c.T('int'),v.l)
    else: c.ret(c.T('unsigned long'),v.l)
@contract(r'coil::String::empty\(\) const')
def str_empty(c): c.ret(c.T('bool'),eq(c.rd(c.this,c.T(STR)).l,0))
@contract(r'coil::String::(begin|end)\(\) const')
def str_begin(c):
    v=c.rd(c.this,c.T(STR));c.req(v.ok,'the string has contents (was not moved from)')
    c.ret(c.T('char*'),c.h.canon(c.st,Ptr(TextBase(v.b),0 if c.last=='begin' else v.l)))
@contract(r'coil::String::(cStr|data)\(\) const')
def str_cStr(c):
    v=c.rd(c.this,c.T(STR));c.req(v.ok,'the string has contents (was not moved from)')
    if c.mode=='call': c.st.ghost[('nul',v.b if isinstance(v.b,int) else v.b.get_id())]=v.l
    c.ret(c.T('char*'),c.h.canon(c.st,Ptr(TextBase(v.b),0)))
@contract(r'coil::String::data\(\)',calls='inline')
def str_mdata(c):
    v=c.rd(c.this,c.T(STR));c.req(v.ok,'the string has contents (was not moved from)')
    c.ret(c.T('char*'),c.h.canon(c.st,Ptr(TextBase(v.b),0)))
@contract(r'coil::String::back\(\)( const)?',calls='inline')
def str_back(c):
    v=c.rd(c.this,c.T(STR));c.req(And(v.ok,lt(0,v.l)),'the string is not empty')
    c.ret(c.T('char*'),c.h.canon(c.st,Ptr(TextBase(v.b),sub(v.l,1))))
@contract(r'coil::String::validateIsNullTerminated\(\)',calls='inline')
def str_validate(c): c.req(c.rd(c.this,c.T(STR)).ok,'the string has contents')
@contract(r'coil::String::reserve\(unsigned long\)')
def str_reserve(c):
    T=c.T(STR);v=c.rd(c.this,T);c.req(lt(c.p(0),SMALL),'capacity is a possible allocation size')
    n=copy_of(c,v,ok=v.ok)
    c.h.kill_texts(c.st,T,v);c.wr(c.this,T,n)
@contract(r'coil::String::resize\(unsigned long\)',inline=r'coil::String::reserve.*')
def str_resize(c):
    T=c.T(STR);v=c.rd(c.this,T);n=c.p(0);c.req(lt(n,SMALL),'size is a possible allocation size')
    A=CH(zi(v.b));G=z3.Const(fresh_name('rest'),z3.ArraySort(IntS,IntS))
    k=fresh_id();st=c.st
    st.assume(lt(n,BSZ(z3.IntVal(k))),lt(BSZ(z3.IntVal(k)),MAXLEN),eq(z3.Select(CH(z3.IntVal(k)),zi(n)),0))
    j=z3.Int('tj')
    st.assume(z3.ForAll([j],z3.Implies(z3.And(0<=j,j<zi(n),j<zi(v.l)),z3.Select(CH(z3.IntVal(k)),j)==z3.Select(A,j)),patterns=[z3.Select(CH(z3.IntVal(k)),j)]))
    r=StrV(k,n,True);r.prefix=v.l
    c.h.kill_texts(c.st,T,v);c.wr(c.this,T,r)
def append(c,w):
    T=c.T(STR);v=c.rd(c.this,T)
    c.req(lt(add(v.l,w.l),SMALL),'the resulting size is a possible allocation size')
    r=cat_of(c,v,w)
    c.h.kill_texts(c.st,T,v);c.wr(c.this,T,r)
    return r
@contract(r'coil::String::append\(char const\*, unsigned long\)',alias=[{'char*':lambda s:_inside(s)}],inline=r'coil::String::(reserve|resize).*')
def str_append(c):
    w=ptr_view(c,c.p(0),c.p(1));v=c.rd(c.this,c.T(STR))
    c.req(Or(ne(w.b,v.b),Not(v.ok),le(add(w.o,w.l),v.l)),'a part of the string itself lies within its length')
    append(c,w)
def _inside_view(s):
    T_=s.ex.types.get(SV)
    for nm,b,_ in s.blocks:
        if nm=='this':
            v=s.st.mem[b].cells[0][2];o,l=z3.Int(fresh_name('self.o')),z3.Int(fresh_name('self.l'));s.st.assume(le(0,o),le(0,l),le(add(o,l),v.l))
            p=s.block('view',T_);s.st.w(p.base).cells[0]=(16,T_,SVV(v.b,o,l));return p
def _inside(s):
    """pointer into the string's own text"""
    for nm,b,T_ in s.blocks:
        if nm=='this':
            v=s.st.mem[b].cells[0][2];o=z3.Int(fresh_name('self.o'));s.st.assume(le(0,o),le(o,v.l));return Ptr(TextBase(v.b),o)
@contract(r'coil::String::operator\+=\(char\)')
def str_pluschar(c):
    T=c.T(STR);v=c.rd(c.this,T);x=c.p(0);c.req(lt(add(v.l,1),SMALL),'the resulting size is a possible allocation size')
    A=CH(zi(v.b))
    r=c.text(add(v.l,1),lambda j:z3.If(j<zi(v.l),z3.Select(A,j),zi(x)))
    joined(c,r,[v,char_txt(c,x)])
    c.h.kill_texts(c.st,T,v);c.wr(c.this,T,r);c.ret(c.T('coil::String*'),c.this)
CHRT=z3.Function('CHRT',IntS,Txt)
def char_txt(c,x):
    """the text of one character"""
    x=val_of(simp(x)) if isz(x) else x
    if isinstance(x,int): return bytes([x])
    t=CHRT(zi(x));c.fact(TLEN(t)==1);return t
@contract(r'coil::String::operator\+=\(char const\*\)',alias=[{'char*':lambda s:_inside(s)}])
def str_pluscstr(c): append(c,cstr_view(c,c.p(0)));c.ret(c.T('coil::String*'),c.this)
@contract(r'coil::String::operator\+=\(coil::String const&\)',alias=[{('same','p0'):0}])
def str_plusstr(c):
    w=c.rd(c.p(0),c.T(STR));c.req(w.ok,'the appended string has contents (was not moved from)')
    append(c,w);c.ret(c.T('coil::String*'),c.this)
@contract(r'coil::String::operator\+=\(coil::StringView const&\)',alias=[{'coil::StringView const&':lambda s:_inside_view(s)}])
def str_plussv(c):
    w=c.rd(c.p(0),c.T(SV));c.h.alive_text(c.st,w.b,'appended text');v=c.rd(c.this,c.T(STR))
    c.req(Or(ne(w.b,v.b),Not(v.ok),le(add(w.o,w.l),v.l)),'a part of the string itself lies within its length');append(c,w);c.ret(c.T('coil::String*'),c.this)
@contract(r'coil::String::operator==\(coil::String const&\) const',alias=[{('same','p0'):0}])
def str_eqs(c):
    T=c.T(STR);a,b=c.rd(c.this,T),c.rd(c.p(0),T);c.req(And(a.ok,b.ok),'both strings have contents')
    c.ret(c.T('bool'),teq(c.ex,c.st,a,b))
@contract(r'coil::String::operator==\(coil::StringView const&\) const')
def str_eqv(c):
    T=c.T(STR);a,b=c.rd(c.this,T),c.rd(c.p(0),c.T(SV));c.req(a.ok,'the string has contents')
    c.ret(c.T('bool'),teq(c.ex,c.st,a,b))
@contract(r'coil::String::operator==\(char const\*\) const')
def str_eqc(c):
    T=c.T(STR);a=c.rd(c.this,T);b=cstr_view(c,c.p(0));c.req(a.ok,'the string has contents')
    c.ret(c.T('bool'),teq(c.ex,c.st,a,b))
@contract(r'coil::String::operator coil::StringView\(\) const')
def str_toview(c):
    v=c.rd(c.this,c.T(STR));c.req(v.ok,'the string has contents (was not moved from)')
    c.ret(c.T(SV),SVV(v.b,0,v.l))
@contract(r'coil::operator\+\(coil::String, (char|char const\*|coil::String const&|coil::StringView const&)\)')
def str_plus(c):
    T=c.T(STR);v=c.rd(c.p(0),T)
    t=c.ptype(1)
    if t=='char':
        x=c.p(1);A=CH(zi(v.b));c.req(lt(add(v.l,1),SMALL),'size')
        r=c.text(add(v.l,1),lambda j:z3.If(j<zi(v.l),z3.Select(A,j),zi(x)));joined(c,r,[v,char_txt(c,x)])
    else:
        w=cstr_view(c,c.p(1)) if t=='char const*' or t=='char*' or 'char' in t else c.rd(c.p(1),c.T(STR) if t.startswith('coil::String&') or t.startswith('coil::String const&') else c.T(SV))
        if isinstance(w,StrV): c.req(w.ok,'the appended string has contents')
        c.req(lt(add(v.l,w.l),SMALL),'size')
        r=cat_of(c,v,w)
    c.h.kill_texts(c.st,T,v);c.wr(c.p(0),T,UnspecV(T))
    c.ret(T,r)

# ---------------------------------------------------------------- hashing
def sx(c,w=64): return z3.If(c>=128,c+(1<<w)-256,c)
HASHP=SpecFn('HASHP',[z3.ArraySort(IntS,IntS),IntS,IntS],IntS,
    lambda A,o,n:[z3.Implies(n==0,HASHP(A,o,n)==5381),
                  z3.Implies(n>0,HASHP(A,o,n)==(33*HASHP(A,o,n-1)+sx(z3.Select(A,o+n-1)))%(1<<64)),
                  HASHP(A,o,n)>=0,HASHP(A,o,n)<(1<<64)])
HT=z3.Function('HT',Txt,IntS)
def hash_hints(ex,g,entry,h,ints,arrs):
    out=[]
    for T in [t for t in entry_texts(ex,entry)]:
        for acc in ints:
            for ix in ints:
                if ix is acc: continue
                for base in {0,*( [ix.entry] if isz(ix.entry) else [])}:
                    out.append(('%s is the hash of the first %s bytes'%(acc.name,ix.name),
                      lambda st,acc=acc,ix=ix,T=T,base=base:eq(acc.get(ex,st),HASHP(CH(zi(T[0])),zi(T[1]),zi(sub(ix.get(ex,st),base))))))
    return out
def entry_texts(ex,st):
    """texts reachable from the memory"""
    out={}
    for b,d in st.mem.items():
        for o,(sz,T_,v) in d.cells.items():
            for x in sub_texts(v): 
                (bb,oo,ll)=rng(x);out[(str(bb),str(oo))]=(bb,oo,ll)
            if isinstance(v,Ptr) and isinstance(v.base,TextBase): out.setdefault((str(v.base.bid),str(v.off)),(v.base.bid,v.off,None))
    return list(out.values())
def sub_texts(v):
    if isinstance(v,(SVV,StrV)): return [v]
    if isinstance(v,RecV): return [y for x in v.vs for y in sub_texts(x)]
    return []
@contract(r'coil::Hash<coil::(String|StringView)>::operator\(\)\(coil::String(View)? const&\)',hints=hash_hints)
def hash_op(c):
    T=c.T(SV if 'View>' in c.scope else STR);v=c.rd(c.p(0),T)
    if T.kind=='str': c.req(v.ok,'the string has contents')
    b,o,l=rng(v)
    c.fact(HT(v.txt)==HASHP(CH(zi(b)),zi(o),zi(l)))
    c.ret(c.T('unsigned long'),HT(v.txt))
    c.fact(le(0,HT(v.txt)),lt(HT(v.txt),1<<64))

def hash_lemma():
    """induction: equal bytes give equal HASHP, so HT is well defined on texts"""
    t0=time.time();A,B=z3.Consts('A B',z3.ArraySort(IntS,IntS));o,p,n=z3.Ints('o p n')
    base=[n==0];r1,_=valid(base,HASHP(A,o,n)==HASHP(B,p,n),5000,3)
    step=[n>=0,HASHP(A,o,n)==HASHP(B,p,n),z3.Select(A,o+n)==z3.Select(B,p+n),z3.Select(A,o+n)>=0,z3.Select(A,o+n)<256]
    r2,_=valid(step,HASHP(A,o,n+1)==HASHP(B,p,n+1),5000,3)
    return dict(lemma='texts with equal bytes have equal hash values (induction on the length)',ok=bool(r1 and r2),t=round(time.time()-t0,2))
LEMMAS={'hash':hash_lemma}
