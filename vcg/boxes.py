"""Call-site contracts of ranges start:end, of slices by three ranges and of assigning a slice to a slice, as proved in specs/c05.py
and specs/c06.py for every kind of range and every source."""
from spec import *
import re
class Rng(Cells):
    __slots__=('d',)
    def copy(s): c=Rng(s.id,s.size,s.kind); c.freed=s.freed; c.d=s.d; c.cells=dict(s.cells); return c
def p_full(ex,st,a,name): o=Rng(a[0].obj,64,'range'); o.d=None; st.mem[a[0].obj]=o
def p_step(ex,st,a,name):
    s=a[3] if len(a)>3 else ONE
    if s!=ONE: raise Unsupported('step of a range')
    o=Rng(a[0].obj,64,'range'); o.d=(a[1],a[2]); st.mem[a[0].obj]=o
def bounds(ex,st,p,L):
    """first selected index and how many"""
    o=st.mem.get(p.obj)
    if not isinstance(o,Rng): raise Unsupported('range')
    if o.freed: raise Failed('a range is used once')
    st.w(p.obj).freed=True
    if o.d is None: return ZERO,L
    ends=[]
    for x in o.d:
        if prove(st.facts,GE(x,0)): ends.append(x)
        elif prove(st.facts,LT(x,0)): ends.append(x+L)
        else: raise Unsupported('sign of an end of a range')
    a,b=ends; ex.require(st,LT(b,L),'end of the range lies in the dimension')
    if prove(st.facts,LT(b,a)): return a,ZERO
    ex.require(st,And(GE(a,0),GE(b,a)),'start of the range lies in the dimension'); return a,b-a+1
class View3(Cells):
    __slots__=('d',)
    def copy(s): c=View3(s.id,s.size,s.kind); c.freed=s.freed; c.d=s.d; c.cells=dict(s.cells); c.abs=dict(s.abs); return c
def p_view(write):
    def f(ex,st,a,name):
        out,t=a[0],a[1]; o=st.mem[t.obj]; k=int(t.off.const()); data,dims=o.abs[k],o.abs[k+8]; db=st.mem[dims.buf]
        ex.require(st,EQ(db.n,len(a)-2),'as many ranges as dimensions'); D=[read_content(ex,st.facts,db.content,P(i),0) for i in range(len(a)-2)]
        b=st.mem[data.buf]
        if write and (b.owners!=1 or b.external): raise Unsupported('slice of shared storage')
        v=View3(out.obj,64,'view'); v.d=(data.buf,D,[bounds(ex,st,p,L) for p,L in zip(a[2:],D)]); st.mem[out.obj]=v
    return f
def p_none(ex,st,a,name): pass
def p_assign(ex,st,a,name):
    t,s=(st.mem[x.obj].d for x in a[:2]); B=st.w(t[0]); src=st.mem[s[0]].content
    for (x,n),(y,m) in zip(t[2],s[2]): ex.require(st,EQ(n,m),'slices of the same size')
    if any(n==ZERO or prove(st.facts,EQ(n,0)) for _,n in t[2]): return a[0]
    es=[fresh('e') for _ in t[2]]; g=And(*[And(GE(e,lo),LT(e,lo+n)) for e,(lo,n) in zip(es,t[2])]); f=st.facts.add(*[And(GE(e,0),LT(e,L)) for e,L in zip(es,t[1])]).add(g)
    def pos(v,ks):
        p=ZERO; w=ONE
        for k,L in zip(ks,v[1]): p=p+k*w; w=w*L
        return p
    cs=comps_of(B.kind); vals=[read_content(ex,f,src,pos(s,[e-lo+lo2 for e,(lo,_),(lo2,_) in zip(es,t[2],s[2])]),cc) for cc in cs]
    full=all(lo==ZERO and n==L for L,(lo,n) in zip(t[1],t[2]))
    for cc,v in zip(cs,vals): B.content=Content(B.content,Eff('store',[(the_atom(e),L) for e,L in zip(es,t[1])],TRUE if full else g,pos(t,es),cc,v))
    return a[0]
T=r'tensor::Tensor<(?:double|std::complex<double>) ?>::'
PRIMS_BOX=[(r'tensor::FullRange::FullRange\(\)',p_full),(r'tensor::StepRange::StepRange\(long, long, long\)',p_step),(T+r'at\(tensor::PRange(?:, tensor::PRange)*\)',p_view(True)),(T+r'operator\(\)\(tensor::PRange(?:, tensor::PRange)*\) const',p_view(False)),
           (T+r'mutable_view::operator=\(tensor::Tensor<.*>::view const&\)',p_assign),(T+r'(?:mutable_)?view::~(?:mutable_)?view\(\)',p_none)]
