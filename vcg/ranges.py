"""Contracts of the index ranges: concrete ranges are proved against them as black boxes (constructor, set_limit, size,
set_factor, reset, pop, destructor); users of ranges are proved with opaque ranges that have nothing but the contract."""
from spec import *
import symexec as X
G='opaque:_ZTVN6tensor5RangeE'
POS,LIM,FAC,DEL,NEW=1000,1008,1016,1024,1032
class ORange:
    """a range known only by its contract: n selected positions f(0..n-1), each in [0,limit)"""
    def __init__(s,name,n,limit,bound=None,kids=None):
        s.name=name; s.n=P(n); s.limit=P(limit); s.kids=kids; s.m=P(n) if P(n).is_const() and P(n)==ZERO else Var(name+'.m'); s.bound=P(limit if bound is None else bound); s.ptr=Ptr(name,0)
    def f(s,k): return Sel(s.name+'.f',P(k),0,'I')
    def inv(s,x): return Sel(s.name+'.inv',P(x),0,'I')
    def selected(s,x): x=P(x); return And(GE(s.inv(x),0),LT(s.inv(x),s.n),EQ(s.f(s.inv(x)),x))
RANGES={}
def opaque(c_or_st,name,n,limit,bound=None,kids=None,injective=False,limited=True):
    st=getattr(c_or_st,'st',c_or_st)
    r=ORange(name,n,limit,bound,kids); c=Cells(name,64,'range')
    c.cells={0:(8,Ptr(G,16)),POS:(8,ZERO),LIM:(8,r.limit if limited else ZERO),FAC:(8,ONE),DEL:(8,ZERO)}
    st.mem[name]=c; RANGES[name]=r; ax=st.facts.axioms
    def fx(a,r=r):
        k=a.args[1]; v=a.poly
        return [Implies(And(GE(k,0),LT(k,r.n)),And(GE(v,0),LT(v,r.bound)))]+([Implies(And(GE(k,0),LT(k,r.n)),EQ(r.inv(v),k))] if injective else [])
    ax[name+'.f']=fx
    if injective: ax['inverse:'+name+'.f']=r.n
    st.assume(GE(r.n,0),GE(r.m,0),LE(r.m,r.n)); return r
def ghost(st,r,g): return st.mem[r.name if isinstance(r,ORange) else r].cells[g][1]
def put(st,name,g,v): st.w(name).cells[g]=(8,P(v))
def isop(st,p): return isinstance(p,Ptr) and p.obj in RANGES and p.obj in st.mem
def live(ex,st,p):
    if not isop(st,p): raise Unsupported('contract of an opaque range on another object')
    ok=ghost(st,p.obj,DEL)==ZERO
    if not ok: ex.log('range used after it was deleted',False); raise Failed('range is alive')
    return RANGES[p.obj]
def limited(ex,st,r):
    if r.kids is None and ghost(st,r,LIM)!=r.limit: raise Failed('range knows its dimension before it is used',r.name)
def eff(st,r):
    """how many positions are delivered: all of them with a positive factor, some fixed number of zeros with factor zero; forks"""
    F=ghost(st,r,FAC)
    if X.prove(st.facts,GE(F,1)) or X.prove_deep(st.facts,GE(F,1)): return [(st,r.n)]
    if not X.prove(st.facts,GE(F,0)) and not X.prove_deep(st.facts,GE(F,0)): raise Failed('factor of a range is not negative',show(F))
    if X.prove(st.facts,EQ(F,0)): return [(st,r.m)]
    out=[]
    for b,n in((GE(F,1),r.n),(EQ(F,0),r.m)):
        s=st.copy(); s.assume(b); s.br=st.br+(b,)
        if X.feasible(s.facts): out.append((s,n))
    return out
def o_pop(ex,st,a,name):
    r=live(ex,st,a[0]); pos=ghost(st,r,POS); out=[]; limited(ex,st,r)
    for st1,n in eff(st,r):
        c=LT(pos,n); no=X.prove(st1.facts,Not(c))
        for b,done in((c,False),(Not(c),True)):
            if not done and no: continue
            if done and X.prove(st1.facts,c): continue
            s=st1.copy()
            if not X.prove(st1.facts,b): s.assume(b); s.br=st1.br+(b,)
            if done: out.append((s,'ret',P(-1)))
            else:
                put(s,r.name,POS,pos+1); out.append((s,'ret',r.f(pos)*ghost(s,r,FAC)))
    return out
def o_reset(ex,st,a,name): put(st,live(ex,st,a[0]).name,POS,0)
def o_size(ex,st,a,name): r=live(ex,st,a[0]); limited(ex,st,r); return r.n
def o_limit(ex,st,a,name):
    r=live(ex,st,a[0])
    if r.kids is not None: return [(st,'abort','assertion')]
    ok=X.prove(st.facts,EQ(r.limit,a[1])) or X.prove_deep(st.facts,EQ(r.limit,a[1])); ex.log('range gets the size of its own dimension',ok)
    if not ok: raise Failed('range gets the size of its own dimension','%s gets %s'%(r.name,show(a[1])))
    put(st,r.name,LIM,a[1])
def factor(ex,st,r,F):
    put(st,r.name,FAC,F if r.kids is None else 1); 
    if r.kids:
        factor(ex,st,r.kids[0],F); factor(ex,st,r.kids[1],F*ghost(st,r.kids[0],LIM))
def o_factor(ex,st,a,name): factor(ex,st,live(ex,st,a[0]),P(a[1]))
def o_dtor(ex,st,a,name):
    r=live(ex,st,a[0]); put(st,r.name,DEL,1)
    for q in r.kids or ():
        live(ex,st,q.ptr); put(st,q.name,DEL,1)
        if q.kids: raise Unsupported('nested delete')
def o_delete(ex,st,a,name):
    def rec(r):
        live(ex,st,r.ptr); put(st,r.name,DEL,1)
        for q in r.kids or (): rec(q)
    rec(live(ex,st,a[0]))
def getter(g):
    def f(ex,st,a,name):
        if isop(st,a[0]): return ghost(st,live(ex,st,a[0]),g)
        return ex.run_function(ex.prog.func(name),a,st)
    return f
def product_ctor(ex,st,a,name):
    """contract of ProductRange(r1,r2): proved in product_* against the real class"""
    obj,p1,p2=a; r1=live(ex,st,p1); r2=live(ex,st,p2)
    if r1.kids is not None: raise Unsupported('product whose first factor is a product')
    limited(ex,st,r1); limited(ex,st,r2)
    if ghost(st,r1,FAC)!=ONE: raise Failed('first factor of a product is fresh')
    n=r1.n*r2.n; o=st.mem[obj.obj]
    factor(ex,st,r2,r1.limit)
    inj=[st.facts.axioms.get('inverse:'+q.name+'.f') for q in(r1,r2)]
    del st.mem[obj.obj]
    opaque(st,obj.obj,n,ZERO,r1.bound*r2.bound,(r1,r2),injective=all(x is not None for x in inj),limited=False)
O=r'opaque!tensor::Range::'
PRIMS_RANGE=[(O+r'pop\(\)',o_pop),(O+r'reset\(\)',o_reset),(O+r'size\(\) const',o_size),
 (O+r'set_limit\(long\)',o_limit),(O+r'set_factor\(long\)',o_factor),(O+r'~Range\(\)',o_delete),
 (r'tensor::Range::get_limit\(\) const',getter(LIM)),(r'tensor::Range::get_factor\(\) const',getter(FAC))]
PRIMS_PRODUCT=PRIMS_RANGE+[(r'tensor::ProductRange::ProductRange\(tensor::Range\*, tensor::Range\*\)',product_ctor)]
