"""assumed contracts of std::vector<sparse_triplet>, std::sort, std::unique and vector::erase (libstdc++ is trusted), used at
call sites.  A vector is the sequence of its elements: a pointer to them, how many there are, and how many of those have a
specified value (std::unique leaves the rest unspecified).  Storage is reserved for as many elements as the sequence ever has
(a ghost constant); no pointer into the sequence is used across an operation that may move it."""
import re
from spec import *
from symexec import *
from sorting import related
ESIZE={'double':24,'std::complex<double>':32}
def elt(name):
    m=re.search(r'sparse_triplet<(double|std::complex<double>)\s?>',demangle(name))
    if not m: raise Unsupported('sequence of '+demangle(name))
    return m.group(1)
def fields(name): return ((0,'I'),(8,'I'),(16,'R'))+(((24,'R'),) if elt(name)!='double' else ())
def at(st,p):
    o=st.mem[p.obj]; d=int(p.off.const()); B=o.cells[d][1]; return o,d,B.obj,o.cells[d+8][1],o.cells[d+16][1]
def put(st,p,size=None,valid=None):
    o=st.w(p.obj); d=int(p.off.const())
    if size is not None: o.cells[d+8]=(8,size)
    if valid is not None: o.cells[d+16]=(8,valid)
def p_new(ex,st,a,name):
    n=newid('seq'); cap=fresh('cap'); st.assume(GE(cap,0)); e=ESIZE[elt(name)]; st.mem[n]=Buf(n,e,'triplet',cap,undef_content())
    o=st.w(a[0].obj); d=int(a[0].off.const())
    for k,v in((0,Ptr(n,0)),(8,ZERO),(16,ZERO)): o.cells[d+k]=(8,v)
    st.notes=tuple(st.notes)+(('seq',a[0],n),)
def p_reserve(ex,st,a,name): ex.require(st,GE(a[1],0),'size to be reserved is not negative')
def p_push(ex,st,a,name):
    o,d,B,n,v=at(st,a[0]); src=st.mem[a[1].obj]
    if n!=v: ex.require(st,EQ(n,v),'every element of the sequence has a value')
    if isinstance(src,Buf) or not a[1].off.is_const(): raise Unsupported('element to append')
    k=int(a[1].off.const()); w=st.w(B)
    for c,s in fields(name):
        if k+c not in src.cells or not isinstance(src.cells[k+c][1],Poly): raise Failed('appended element has a value')
        w.content=Content(w.content,Eff('store',(),TRUE,n,c,src.cells[k+c][1]))
    st.assume(LE(n+1,w.n)); put(st,a[0],n+1,n+1)
def p_begin(ex,st,a,name): o,d,B,n,v=at(st,a[0]); return Ptr(B,0)
def p_end(ex,st,a,name): o,d,B,n,v=at(st,a[0]); return Ptr(B,n*st.mem[B].esz)
def p_size(ex,st,a,name): return at(st,a[0])[3]
def p_index(ex,st,a,name):
    o,d,B,n,v=at(st,a[0]); ex.require(st,And(GE(a[1],0),LT(a[1],v)),'element of the sequence exists'); return Ptr(B,a[1]*st.mem[B].esz)
def p_del(ex,st,a,name): o,d,B,n,v=at(st,a[0]); st.w(B).freed=True
def whole(ex,st,a,what):
    b=st.mem.get(a[0].obj)
    r=[n for n in st.notes if n[0]=='seq' and n[2]==a[0].obj]
    if not r or a[1].obj!=a[0].obj or a[0].off!=ZERO: raise Unsupported('range to be '+what)
    p=r[-1][1]; o,d,B,n,v=at(st,p)
    if not(a[1].off==n*b.esz and prove(st.facts,EQ(n,v))): raise Unsupported('range to be '+what)
    return p,b,n
IT=r'__gnu_cxx::__normal_iterator<tensor::sparse_triplet<[\w:<>]+ ?>\*, std::vector<tensor::sparse_triplet<[\w:<>]+ ?>, std::allocator<tensor::sparse_triplet<[\w:<>]+ ?> ?> ?> ?>'
def comparison(ex,name,kind):
    e=re.escape(elt(name)); it=IT.replace(r'[\w:<>]+',e); pat=r'bool __gnu_cxx::__ops::%s::operator\(\)<%s, %s ?>\(.*\)( const)?'%(kind,it,it)
    fs=[f for f in ex.prog.find(pat)]
    if not fs: raise Unsupported('comparison not found: '+pat)
    return fs[0]
SEQ=[0]
def shown(ex,f,*gs):
    for g,n in gs:
        ok=prove(f,g) or prove_deep(f,g); ex.log(n,ok)
        if not ok: raise Failed(n,show_bool(g)[:600])
def p_sort(ex,st,a,name):
    p,b,n=whole(ex,st,a,'sorted')
    if len(a)>2: raise Unsupported('sort with another comparison')
    x,y,z=fresh('x'),fresh('y'),fresh('z'); L,f=related(ex,st,b,ZERO,n,comparison(ex,name,'_Iter_less_iter'),a[2:],x,y,[z])
    r=lambda u,v: subst(L,{the_atom(x):P(u),the_atom(y):P(v)})
    shown(ex,f,(Not(r(x,x)),'comparison is irreflexive'),(Implies(And(r(x,y),r(y,z)),r(x,z)),'comparison is transitive'),(Implies(And(Not(r(x,y)),Not(r(y,z))),Not(r(x,z))),'incomparability is transitive'))
    SEQ[0]+=1; k='perm%d'%SEQ[0]; pm=lambda i: Sel(k,i,0,'I'); old=b.content
    st.facts.axioms[k]=lambda t:[Implies(And(GE(t.args[1],0),LT(t.args[1],n)),And(GE(t.poly,0),LT(t.poly,n)))]
    content=lam_content(lambda i,c: read_content(ex,st.facts,old,pm(i),c)); st.w(b.id).content=content
    ws=[]
    for w in [x[1] for x in st.notes if x[0]=='watch'][-1:]:     # a permutation meets every position
        q=fresh('p'); st.assume(Implies(And(GE(w,0),LT(w,n)),And(GE(q,0),LT(q,n),EQ(pm(q),w)))); ws.append(('watch',q))
    pair=lambda u,v: Implies(And(GE(u,0),LT(u,v),LT(v,n)),Not(r(pm(v),pm(u))))
    q=fresh('q'); st.assume(Forall((q,),pair(q,q+1))); st.notes=tuple(st.notes)+tuple(ws)+(('ordered',b.id,content,pair),)
def p_unique(ex,st,a,name):
    p,b,n=whole(ex,st,a,'made unique')
    if len(a)>2: raise Unsupported('unique with another comparison')
    x,y,z=fresh('x'),fresh('y'),fresh('z'); L,f=related(ex,st,b,ZERO,n,comparison(ex,name,'_Iter_equal_to_iter'),a[2:],x,y,[z])
    r=lambda u,v: subst(L,{the_atom(x):P(u),the_atom(y):P(v)})
    shown(ex,f,(r(x,x),'comparison is reflexive'),(Implies(r(x,y),r(y,x)),'comparison is symmetric'),(Implies(And(r(x,y),r(y,z)),r(x,z)),'comparison is transitive'))
    SEQ[0]+=1; k='kept%d'%SEQ[0]; u=lambda i: Sel(k,i,0,'I'); old=b.content; m=fresh('m')
    st.facts.axioms[k]=lambda t:[Implies(And(GE(t.args[1],0),LT(t.args[1],m)),And(GE(t.poly,0),LT(t.poly,n)))]
    st.assume(GE(m,0),LE(m,n),Implies(GT(n,0),GT(m,0)))
    ordered=[x for x in st.notes if x[0]=='ordered' and x[1]==b.id and x[2] is old]
    content=lam_content(lambda i,c: read_content(ex,st.facts,old,u(i),c)); st.w(b.id).content=content
    q=fresh('q'); st.assume(Forall((q,),Implies(And(GE(q,0),LT(q+1,m)),And(LT(u(q),u(q+1)),Not(r(u(q),u(q+1))),*[o[3](u(q),u(q+1)) for o in ordered]))))
    ws=[]
    for w in [x[1] for x in st.notes if x[0]=='watch'][-1:]:     # what is dropped equals an element that is kept
        q=fresh('p'); st.assume(Implies(And(GE(w,0),LT(w,n)),And(GE(q,0),LT(q,m),r(u(q),w)))); ws.append(('watch',q))
    st.notes=tuple(st.notes)+tuple(ws); put(st,p,valid=m); return Ptr(b.id,m*b.esz)
def p_erase(ex,st,a,name):
    o,d,B,n,v=at(st,a[0]); e=st.mem[B].esz
    if a[1].obj!=B or a[2].obj!=B or a[2].off!=n*e: raise Unsupported('elements to be erased')
    f=exact_div(a[1].off,P(e))
    if f is None: raise Unsupported('elements to be erased')
    ex.require(st,And(GE(f,0),LE(f,n)),'elements to be erased exist')
    if not prove(st.facts,LE(f,v)): raise Failed('elements without a specified value are erased')
    put(st,a[0],f,f); return a[1]
V=r'std::vector<tensor::sparse_triplet<[\w:<>]+ ?>, std::allocator<tensor::sparse_triplet<[\w:<>]+ ?> ?> ?>::'
PRIMS=[(V+r'vector\(\)',p_new),(V+r'reserve\(unsigned long\)',p_reserve),(V+r'push_back\(tensor::sparse_triplet<.*> ?(&&|const ?&)\)',p_push),(V+r'c?begin\(\)( const)?',p_begin),(V+r'c?end\(\)( const)?',p_end),
       (V+r'size\(\) const',p_size),(V+r'operator\[\]\(unsigned long\)( const)?',p_index),(V+r'~vector\(\)',p_del),(V+r'erase\(.*, .*\)',p_erase),
       (r'void std::(stable_)?sort<'+IT+r' ?>\(.*\)',p_sort),(IT+r' std::unique<'+IT+r' ?>\(.*\)',p_unique)]
