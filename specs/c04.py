from spec import *
TUS=['@c04','indices/indices.cc','tensor/tensor_reshape_d.cc','tensor/tensor_reshape_z.cc','tensor/tensor_flatten_d.cc','tensor/tensor_flatten_z.cc']
from blas import PRIMS_IO
R16=[1,2,3,4,5,6]; KZ=['d','z']
def mul(l):
    p=ONE
    for x in l: p=p*x
    return p
def sizes(c,n): return [c.int('n%d'%q,0) for q in range(n)]
def like_indices(c,R,D):
    """dimensions of R are the entries of the index list D"""
    R.rank_is(D.n); q=fresh('q'); R.dim(q,D.at(q),[GE(q,0),LT(q,D.n)])
@spec('C04',k=KZ,n=R16)
def construct(c,k,n):
    N=sizes(c,n); o=c.out()
    for st,_ in c.run('new%d_%s'%(n,k),[o]+N): R=c.tview(st,o); R.shape(N); R.data.fresh(); R.dims.fresh()
@spec('C04',k=KZ,n=R16,fn=['zeros','ones'])
def filled(c,k,n,fn):
    N=sizes(c,n); o=c.out(); v=1 if fn=='ones' else 0
    for st,_ in c.run('%s%d_%s'%(fn,n,k),[o]+N):
        R=c.tview(st,o); M=N*2 if n==1 else N; R.shape(M); R.elems([mul(M)],lambda q: q,lambda cc,q: P(v if cc==0 else 0))
def idx(c,neg=False):
    D=c.vector('D','l',nonneg=not neg); c.assume(GE(D.n,1)); return D
def total(D): return Prod('D',ZERO,D.n)
@spec('C04',k=KZ)
def construct_indices(c,k):
    D=idx(c); o=c.out()
    for st,_ in c.run('newI_'+k,[o,D.ptr]): R=c.tview(st,o); like_indices(c,R,D); R.data.len_is(total(D)); R.data.fresh()
@spec('C04',k=KZ,fn=['zeros','ones'])
def filled_indices(c,k,fn):
    D=idx(c); o=c.out(); v=1 if fn=='ones' else 0
    for st,_ in c.run('%sI_%s'%(fn,k),[o,D.ptr]):
        R=c.tview(st,o); like_indices(c,R,D); R.data.len_is(total(D)); R.elems([total(D)],lambda q: q,lambda cc,q: P(v if cc==0 else 0))
@spec('C04',k=KZ,fn=['newI','zerosI','onesI'])
def no_indices(c,k,fn):
    D=c.vector('D','l',n=0,nonneg=True); o=c.out()
    for st,_ in c.run('%s_%s'%(fn,k),[o,D.ptr]): R=c.tview(st,o); R.rank_is(ZERO); R.data.len_is(ZERO)
@spec('C04',k=KZ)
def default(c,k):
    o=c.out()
    for st,_ in c.run('new0_'+k,[o]): R=c.tview(st,o); R.rank_is(ZERO); R.data.len_is(ZERO)
@spec('C04',k=KZ,n=[1,2])
def eye(c,k,n):
    N=sizes(c,n); o=c.out(); M=N*2 if n==1 else N
    for st,_ in c.run('eye%d_%s'%(n,k),[o]+N):
        R=c.tview(st,o); R.shape(M); R.elems(M,lambda i,j: i+M[0]*j,lambda cc,i,j: Ite(EQ(i,j),P(1 if cc==0 else 0),0))
def same_data(c,st,R,A):
    R.data.len_is(A.n); R.elems([A.n],lambda q: q,lambda cc,q: A.at(q,cc))
@spec('C04',k=KZ)
def copy(c,k):
    A=c.tensor('A',k); o=c.out()
    for st,_ in c.run('newC_'+k,[o,A.ptr]): R=c.tview(st,o); R.rank_is(A.r); q=fresh('q'); R.dim(q,A.d(q),[GE(q,0),LT(q,A.r)]); same_data(c,st,R,A)
@spec('C04',k=KZ)
def assign(c,k):
    A=c.tensor('A',k,mode='own'); B=c.tensor('B',k)
    for st,_ in c.run('assign_'+k,[A.ptr,B.ptr]): R=c.tview(st,A.ptr); R.rank_is(B.r); q=fresh('q'); R.dim(q,B.d(q),[GE(q,0),LT(q,B.r)]); same_data(c,st,R,B)
@spec('C04',k=KZ)
def from_vector(c,k):
    V=c.vector('V',k); o=c.out()
    for st,_ in c.run('newV_'+k,[o,V.ptr]): R=c.tview(st,o); R.shape([V.n]); R.elems([V.n],lambda q: q,lambda cc,q: V.at(q,cc))
@spec('C04',k=KZ)
def to_vector(c,k):
    A=c.tensor('A',k); o=c.out('o',8)
    for st,_ in c.run('toV_'+k,[o,A.ptr]): R=c.vview(st,o); R.len_is(A.n); R.elems([A.n],lambda q: q,lambda cc,q: A.at(q,cc))
@spec('C04')
def to_complex(c):
    A=c.tensor('A'); o=c.out()
    for st,_ in c.run('conv',[o,A.ptr]):
        R=c.tview(st,o); R.rank_is(A.r); q=fresh('q'); R.dim(q,A.d(q),[GE(q,0),LT(q,A.r)]); R.data.len_is(A.n); R.elems([A.n],lambda q: q,lambda cc,q: A.at(q,0) if cc==0 else ZERO)
@spec('C04',k=KZ)
def is_empty(c,k):
    A=c.tensor('A',k)
    for st,r in c.run('empty_'+k,[A.ptr]): c.prove(st,EQ(r if isinstance(r,Poly) else Ite(r,1,0),Ite(EQ(A.n,0),1,0)),'is_empty')
@spec('C04',k=KZ,mode=['own','shared'])
def fill(c,k,mode):
    A=c.tensor('A',k,mode=mode); v=c.zref('v','z') if k=='z' else c.real('v')
    for st,_ in c.run('fill_'+k,[A.ptr,v]):
        R=c.tview(st,A.ptr); R.rank_is(A.r); q=fresh('q'); R.dim(q,A.d(q),[GE(q,0),LT(q,A.r)]); R.data.len_is(A.n); R.data.fresh()
        R.elems([A.n],lambda q: q,lambda cc,q: v if k=='d' else Var('v.%d'%cc,'R'))
@spec('C04',k=KZ,mode=['own','shared'])
def fill_zeros(c,k,mode):
    A=c.tensor('A',k,mode=mode)
    for st,_ in c.run('fill0_'+k,[A.ptr]):
        R=c.tview(st,A.ptr); R.rank_is(A.r); R.data.len_is(A.n); R.data.fresh(); R.elems([A.n],lambda q: q,lambda cc,q: ZERO)
@spec('C04',k=KZ,n=R16)
def reshape(c,k,n):
    A=c.tensor('A',k); N=sizes(c,n); o=c.out(); c.assume(EQ(mul(N),A.n))
    for st,_ in c.run('resh%d_%s'%(n,k),[o,A.ptr]+N): R=c.tview(st,o); R.shape(N); same_data(c,st,R,A)
@spec('C04',k=KZ,n=R16)
def reshape_wrong_size(c,k,n):
    A=c.tensor('A',k); N=sizes(c,n); c.assume(NE(mul(N),A.n))
    c.run('resh%d_%s'%(n,k),[c.out(),A.ptr]+N,expect='abort')
@spec('C04',k=KZ,fn=['reshI','newIT','memresh'])
def reshape_indices(c,k,fn):
    A=c.tensor('A',k,mode='own' if fn=='memresh' else 'in'); D=idx(c); c.assume(EQ(total(D),A.n))
    o=c.out() if fn!='memresh' else A.ptr
    for st,_ in c.run('%s_%s'%(fn,k),([o,A.ptr,D.ptr] if fn=='reshI' else [o,D.ptr,A.ptr] if fn=='newIT' else [A.ptr,D.ptr])):
        R=c.tview(st,o); like_indices(c,R,D); same_data(c,st,R,A)
@spec('C04',k=KZ,fn=['reshI','newIT','memresh'])
def reshape_indices_wrong_size(c,k,fn):
    A=c.tensor('A',k,mode='own' if fn=='memresh' else 'in'); D=idx(c); c.assume(NE(total(D),A.n))
    o=c.out()
    c.run('%s_%s'%(fn,k),([o,A.ptr,D.ptr] if fn=='reshI' else [o,D.ptr,A.ptr] if fn=='newIT' else [A.ptr,D.ptr]),expect='abort')
@spec('C04',k=KZ)
def flatten(c,k):
    A=c.tensor('A',k); o=c.out()
    for st,_ in c.run('flat_'+k,[o,A.ptr]): R=c.tview(st,o); R.shape([A.n]); same_data(c,st,R,A)
for f in list(globals().values()):
    if callable(f) and getattr(f,'__module__',None)==__name__: f.prims=PRIMS_IO
