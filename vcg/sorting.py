"""contract of std::sort / std::stable_sort over an array of the library, used at call sites (libstdc++ is trusted).

Required at the call: the range lies inside live, unshared storage and the comparison is a strict weak order on its
elements (shown for the comparison's real code).  Ensured: the range holds a permutation of its elements, ghost
permutation perm, and no element precedes its predecessor."""
import re
from spec import *
from symexec import *
SORTS=[]
class Sorted(Cells):
    __slots__=('d',)
    def copy(s): c=Sorted(s.id,s.size,s.kind); c.d=s.d; return c
def related(ex,st,b,lo,hi,fn,extra_args,x,y,more=()):
    """the relation between elements x and y (in [lo,hi)) of b that the comparison's own code computes; it must write nothing"""
    s2=st.copy(); s2.assume(*[And(GE(v,lo),LT(v,hi)) for v in(x,y)+tuple(more)])
    o=Cells(newid('cmp'),16,'stack')
    for k,v in enumerate(extra_args): o.cells[8*k]=(8,v)
    s2.mem[o.id]=o; old=getattr(ex,'strict_fp',False); ex.strict_fp=True
    outs=ex.call(s2.copy(),fn,[Ptr(o.id,0),Ptr(b.id,x*b.esz),Ptr(b.id,y*b.esz)]); r=FALSE
    for t,kind,v in outs:
        if kind!='ret': raise Failed('comparison returns')
        for i in st.mem:
            if isinstance(st.mem[i],Buf) and t.mem[i].content is not st.mem[i].content: raise Failed('comparison writes nothing')
        if isinstance(v,Poly): v=NE(v,0)
        extra=[g for g in t.facts.l if g not in s2.facts.l]
        r=Or(r,And(v,*extra)) if len(outs)>1 else v
    ex.strict_fp=old
    return r,s2.facts
def p_sort(ex,st,a,name):
    d=demangle(name); first,last=a[0],a[1]
    m=re.match(r'void std::(?:stable_)?sort<([\w:<>]+\*)(?:, (.*))? >\(|void std::(?:stable_)?sort<([\w:<>]+\*)>\(',d)
    if not m: raise Unsupported('sort '+d)
    it=m.group(1) or m.group(3); cmp=m.group(2)
    if first.obj is None or first.obj!=last.obj or not isinstance(st.mem[first.obj],Buf): raise Unsupported('range to be sorted')
    b=st.mem[first.obj]
    if b.freed: raise Failed('sorted storage is alive')
    if b.owners>1: raise Failed('sorted storage is not shared')
    lo,c0=ex.buf_index(b,first.off,0); hi,c1=ex.buf_index(b,last.off,0)
    if c0 or c1: raise Unsupported('range to be sorted')
    ex.require(st,And(GE(lo,0),LE(lo,hi),LE(hi,b.n)),'range to be sorted lies inside the storage')
    if cmp: pat=r'bool __gnu_cxx::__ops::_Iter_comp_iter<%s ?>::operator\(\)<%s, %s>\(.*\)( const)?'%((re.escape(cmp),)+(re.escape(it),)*2)
    else: pat=r'bool __gnu_cxx::__ops::_Iter_less_iter::operator\(\)<%s, %s>\(.*\)( const)?'%((re.escape(it),)*2)
    fs=ex.prog.find(pat)
    if not fs: raise Unsupported('comparison not found: '+pat)
    x,y,z=fresh('x'),fresh('y'),fresh('z'); L,f=related(ex,st,b,lo,hi,fs[0],a[2:],x,y,[z])
    at=lambda p,q: subst(L,{the_atom(x):P(p),the_atom(y):P(q)})
    def show(g,n):
        ok=prove(f,g) or prove_deep(f,g); ex.log(n,ok)
        if not ok: raise Failed(n,show_bool(g)[:600])
    show(Not(at(x,x)),'comparison is irreflexive'); show(Implies(And(at(x,y),at(y,z)),at(x,z)),'comparison is transitive')
    show(Implies(And(Not(at(x,y)),Not(at(y,z))),Not(at(x,z))),'incomparability is transitive')
    k='sort%d'%len(SORTS); SORTS.append(k); pm=lambda i: Sel(k,i,0,'I')
    st.facts.axioms[k]=lambda t:[Implies(And(GE(t.args[1],lo),LT(t.args[1],hi)),And(GE(t.poly,lo),LT(t.poly,hi)))] if False else [GE(t.poly,lo),LT(t.poly,hi)]
    oldc=b.content; w=st.w(b.id)
    inside=lambda i: And(GE(i,lo),LT(i,hi))
    def val(i,c):
        new=read_content(ex,st.facts,oldc,pm(i),c)
        return new if prove(st.facts,And(EQ(lo,0),EQ(hi,b.n))) else Ite(inside(i),new,read_content(ex,st.facts,oldc,i,c))
    w.content=lam_content(val); q=fresh('q')
    st.assume(Forall((q,),Implies(And(GE(q,lo),LT(q+1,hi)),Not(at(pm(q+1),pm(q))))))
    o=Sorted(newid('sorted'),0,'ghost'); o.d=(k,lo,hi); st.mem[o.id]=o
SORT=(r'void std::(stable_)?sort<.*',p_sort)
