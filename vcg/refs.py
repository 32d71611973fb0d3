"""Contracts of the reference-counted storage, used at every call site.

Each contract here is proved against the body of the RefPointer method (class level0.py); callers see
only the contract: a RefPointer field is an abstract reference to a storage object that knows
its length, its contents and the number of its owners.
"""
import re
from terms import *
from symexec import *

KIND={'double':'double','std::complex<double>':'cdouble','long':'long','bool':'bool','int':'int','char':'char','float':'float'}
def elt(name):
    m=re.match(r'tensor::RefPointer<(.*?)>::',demangle(name))
    k=KIND.get(m.group(1).strip())
    if k is None: raise Unsupported('element type '+m.group(1))
    return k
def ref_at(st,p):
    if p.obj is None or p.obj not in st.mem: raise Unsupported('reference outside memory')
    o=st.mem[p.obj]
    if not isinstance(o,Cells): raise Unsupported('reference counted pointer inside a buffer')
    if not p.off.is_const(): raise Unsupported('symbolic reference position')
    r=o.abs.get(p.off.const())
    if r is None: raise Failed('reference counted pointer is initialised','%s'%p)
    return r
def set_ref(st,p,r):
    o=st.w(p.obj); k=p.off.const()
    if r is None: o.abs.pop(k,None)
    else: o.abs[k]=r; o.cells.pop(k,None)
def new_buf(ex,st,kind,n,content=None):
    oid=newid('buf'); st.mem[oid]=Buf(oid,ESZ[kind],kind,n,content or undef_content()); return oid
def release(ex,st,r):
    b=st.w(r.buf); b.owners-=1
    if b.owners<=0 and not b.external: b.freed=True
def acquire(st,r):
    b=st.w(r.buf); b.owners+=1
def rp_ctor(ex,st,a,name):
    set_ref(st,a[0],AbsRef(new_buf(ex,st,elt(name),0)))
def rp_ctor_n(ex,st,a,name):
    ex.require(st,GE(a[1],0),'allocated length is non-negative')
    set_ref(st,a[0],AbsRef(new_buf(ex,st,elt(name),a[1])))
def rp_ctor_data(ex,st,a,name):
    p,n,own=a[1],a[2],a[3]
    if p.obj is None:
        set_ref(st,a[0],AbsRef(new_buf(ex,st,elt(name),0))); return
    if own is FALSE and isinstance(st.mem.get(p.obj),Buf) and p.off==ZERO and st.mem[p.obj].n==n and st.mem[p.obj].owners==0 and st.mem[p.obj].kind==elt(name):
        b=st.w(p.obj); b.owners=1; b.external=True
        set_ref(st,a[0],AbsRef(p.obj)); return
    raise Unsupported('wrapping of raw memory')
def rp_copy(ex,st,a,name):
    r=ref_at(st,a[1]); acquire(st,r); set_ref(st,a[0],r)
def rp_dtor(ex,st,a,name):
    r=ref_at(st,a[0]); set_ref(st,a[0],None); release(ex,st,r)
def rp_assign(ex,st,a,name):
    r=ref_at(st,a[1]); o=ref_at(st,a[0])
    if r!=o:
        acquire(st,r); release(ex,st,o); set_ref(st,a[0],r)
    return a[0]
def live(ex,st,r):
    b=st.mem[r.buf]
    if b.freed: raise Failed('storage is alive')
    return b
def unshare(ex,st,p,name):
    r=ref_at(st,p); b=live(ex,st,r)
    if b.owners>1:
        n=new_buf(ex,st,b.kind,b.n,b.content); release(ex,st,r); r=AbsRef(n); set_ref(st,p,r)
    return r
def rp_begin(ex,st,a,name): return Ptr(unshare(ex,st,a[0],name).buf,0)
def rp_end(ex,st,a,name):
    r=unshare(ex,st,a[0],name); b=st.mem[r.buf]; return Ptr(r.buf,b.n*b.esz)
def rp_cbegin(ex,st,a,name):
    r=ref_at(st,a[0]); live(ex,st,r); return Ptr(r.buf,0)
def rp_cend(ex,st,a,name):
    r=ref_at(st,a[0]); b=live(ex,st,r); return Ptr(r.buf,b.n*b.esz)
def rp_size(ex,st,a,name): return live(ex,st,ref_at(st,a[0])).n
def rp_count(ex,st,a,name): raise Unsupported('reference count observed')
def rp_realloc(ex,st,a,name):
    ex.require(st,GE(a[1],0),'allocated length is non-negative')
    r=ref_at(st,a[0]); release(ex,st,r); set_ref(st,a[0],AbsRef(new_buf(ex,st,elt(name),a[1])))
R=r'tensor::RefPointer<[^()]*>::'
REF_PRIMS=[
 (R+r'RefPointer\(\)',rp_ctor),(R+r'RefPointer\(unsigned long\)',rp_ctor_n),
 (R+r'RefPointer\([^()&]*\*, unsigned long, bool\)',rp_ctor_data),(R+r'RefPointer\(tensor::RefPointer<.*> const&\)',rp_copy),
 (R+r'~RefPointer\(\)',rp_dtor),(R+r'operator=\(.*\)',rp_assign),
 (R+r'begin\(\)',rp_begin),(R+r'end\(\)',rp_end),(R+r'begin(_const)?\(\) const',rp_cbegin),(R+r'end(_const)?\(\) const',rp_cend),
 (R+r'size\(\) const',rp_size),(R+r'ref_count\(\) const',rp_count),(R+r'reallocate\(unsigned long\)',rp_realloc),
 (R+r'(appropriate|reference|dereference)\(.*\).*',lambda ex,st,a,n: (_ for _ in ()).throw(Unsupported('private RefPointer operation called outside'))),
]
def p_assert(ex,st,a,name): return [(st,'abort','assertion')]
def p_abort(ex,st,a,name): return [(st,'abort',name)]
def p_new(ex,st,a,name):
    n=a[0]; oid=newid('new')
    if n.is_const() and 'new[]' not in demangle(name): st.mem[oid]=Cells(oid,n.const(),'heap')
    else: st.mem[oid]=Buf(oid,1,'?',n,undef_content(),raw=True)
    return Ptr(oid,0)
def p_delete(ex,st,a,name):
    if a[0].obj is None: return
    o=st.mem[a[0].obj]
    if o.freed: raise Failed('no double release')
    o=st.w(a[0].obj); o.freed=True
def app(nm,nargs=1):
    return lambda ex,st,a,name: App(nm,*a[:nargs])
LIBM='sqrt sin cos tan sinh cosh tanh exp log floor ceil round pow atan2 hypot fmod log2 asin acos atan'.split()
def p_memcmp(ex,st,a,name):
    p,q,n=a
    if n==ZERO: return ZERO
    x=st.mem.get(p.obj); y=st.mem.get(q.obj)
    if not isinstance(x,Buf) or not isinstance(y,Buf) or x.esz!=y.esz or x.kind not in('long','bool','int','char') or y.kind!=x.kind: raise Unsupported('memcmp')
    cnt=exact_div(n,P(x.esz)); i,c=ex.buf_index(x,p.off,0); j,c2=ex.buf_index(y,q.off,0)
    if cnt is None or c or c2: raise Unsupported('memcmp')
    ex.require(st,Or(LE(cnt,0),And(GE(i,0),LE(i+cnt,x.n),GE(j,0),LE(j+cnt,y.n))),'compared range inside buffers')
    if x.freed or y.freed: raise Failed('compared storage is alive')
    outs=[]
    eq=st.copy(); v=fresh('q'); f=eq.facts.add(GE(v,0),LT(v,cnt))
    body=Implies(And(GE(v,0),LT(v,cnt)),EQ(read_content(ex,f,x.content,i+v,0),read_content(ex,f,y.content,j+v,0)))
    if body is not TRUE:
        fa=Forall((v,),body); eq.assume(fa); eq.br=st.br+(fa,)
        xr,yr=x.content.base,y.content.base
        if xr and yr and xr[0]=='init' and yr[0]=='init' and x.kind=='long':     # equal sequences have equal products
            eq.assume(EQ(Prod(xr[1],i,i+cnt),Prod(yr[1],j,j+cnt)))
    if feasible(eq.facts): outs.append((eq,'ret',ZERO))
    ne=st.copy(); w=fresh('w'); ne.assume(GE(w,0),LT(w,cnt))
    d=NE(read_content(ex,ne.facts,x.content,i+w,0),read_content(ex,ne.facts,y.content,j+w,0))
    ne.assume(d); ne.br=st.br+(GE(w,0),LT(w,cnt),d)
    if feasible(ne.facts):
        r=fresh('memcmp'); ne.assume(NE(r,0)); outs.append((ne,'ret',r))
    return outs
def p_stream(ex,st,a,name): return a[0]
IO=r'.*\(std::basic_ostream<char, std::char_traits<char> >&.*\)|.*\(std::ostream&.*\)|std::ostream::operator<<.*|std::basic_ostream<.*|std::ostream& tensor::operator<<.*|std::ostream& std::operator<<.*|std::ostream::.*|std::operator<<.*|std::basic_ostream<.*> ?& std::endl.*|std::ostream& operator<<.*|.*std::ostream& tensor::.*operator<<.*|tensor::operator<<\(std::ostream&.*'
def p_muldc3(ex,st,a,name): return Agg([a[0]*a[2]-a[1]*a[3],a[0]*a[3]+a[1]*a[2]])
def p_divdc3(ex,st,a,name):
    if a[3]==ZERO: return Agg([a[0]*Inv(a[2]),a[1]*Inv(a[2])])
    q=Inv(a[2]*a[2]+a[3]*a[3]); return Agg([(a[0]*a[2]+a[1]*a[3])*q,(a[1]*a[2]-a[0]*a[3])*q])
def capp(nm): return lambda ex,st,a,name: Agg([App('%s.0'%nm,*a),App('%s.8'%nm,*a)])
def p_exit_guard(ex,st,a,name): return None
BASE_PRIMS=REF_PRIMS+[('memcmp|bcmp',p_memcmp),(IO,p_stream),('__muldc3',p_muldc3),('__divdc3',p_divdc3),('cabs',app('cabs',2)),('carg',app('carg',2))]+[
 (n,capp(n)) for n in 'cexp clog csin ccos ctan csinh ccosh ctanh csqrt cpow'.split()]+[
 (r'__assert_fail',p_assert),(r'abort|exit|std::terminate\(\)|__cxa_throw|std::__throw_.*',p_abort),
 (r'operator new(\[\])?\(unsigned long\)',p_new),(r'operator delete(\[\])?\(void\*.*\)',p_delete),
]+[(n+r'|__builtin_'+n+r'|std::'+n+r'\(double\)',app(n)) for n in LIBM if n not in('pow','atan2','hypot','fmod')]+[
 (n,app(n,2)) for n in('pow','atan2','hypot','fmod')]+[
 (r'fabs|std::abs\(double\)|std::fabs\(double\)',lambda ex,st,a,n: App('fabs',a[0]) if getattr(ex,'opaque_abs',0) and P(a[0]).const() is None else Ite(LT(a[0],0),-a[0],a[0]))]
PRIMS=[(re.compile(p),f) for p,f in BASE_PRIMS]
