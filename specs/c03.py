from spec import *
TUS=['@c03']
def pos(A,n,ix):
    p=ix[n-1]
    for q in range(n-2,-1,-1): p=ix[q]+A.d(q)*p
    return p
def inside(i,d): return And(GE(i,-d),LT(i,d))
R16=[1,2,3,4,5,6]
@spec('C03',k=['d','z'],n=R16)
def read(c,k,n):
    A=c.tensor('A',k,n); ix=[c.int('i%d'%q) for q in range(n)]
    c.assume(*[inside(i,A.d(q)) for q,i in enumerate(ix)])
    p=pos(A,n,[Norm(i,A.d(q)) for q,i in enumerate(ix)])
    if k=='d':
        for st,r in c.run('get%d_d'%n,[A.ptr]+ix): c.prove_eq(st,r,A.at(p,0),'element read')
    else:
        o=c.out('o')
        for st,r in c.run('get%d_z'%n,[o,A.ptr]+ix):
            for e in(0,8): c.prove_eq(st,st.mem[o.obj].cells[e][1],A.at(p,e),'element read')
@spec('C03',k=['d','z'],n=R16,mode=['own','shared'])
def write(c,k,n,mode):
    A=c.tensor('A',k,n,mode=mode); ix=[c.int('i%d'%q) for q in range(n)]
    c.assume(*[inside(i,A.d(q)) for q,i in enumerate(ix)])
    p=pos(A,n,[Norm(i,A.d(q)) for q,i in enumerate(ix)])
    v=c.zref('v','z') if k=='z' else c.real('v')
    val=(lambda e: Var('v.%d'%e,'R')) if k=='z' else lambda e: v
    for st,_ in c.run('set%d_%s'%(n,k),[A.ptr]+ix+[v]):
        R=c.tview(st,A.ptr); R.shape([A.d(q) for q in range(n)]); R.data.fresh()
        R.elems([A.n],lambda q: q,lambda cc,q: Ite(EQ(q,p),val(cc),A.at(q,cc)))
@spec('C03',k=['d','z'],n=R16)
def bad_read(c,k,n):
    A=c.tensor('A',k,n); ix=[c.int('i%d'%q) for q in range(n)]
    c.assume(Or(*[Not(inside(i,A.d(q))) for q,i in enumerate(ix)]))
    c.run('get%d_%s'%(n,k),([] if k=='d' else [c.out('o')])+[A.ptr]+ix,expect='abort')
@spec('C03',k=['d','z'],n=R16)
def bad_write(c,k,n):
    A=c.tensor('A',k,n,mode='own'); ix=[c.int('i%d'%q) for q in range(n)]
    c.assume(Or(*[Not(inside(i,A.d(q))) for q,i in enumerate(ix)]))
    c.run('set%d_%s'%(n,k),[A.ptr]+ix+[c.zref('v','z') if k=='z' else c.real('v')],expect='abort')
@spec('C03',k=['d','z'],n=R16)
def wrong_rank(c,k,n):
    A=c.tensor('A',k,mode='own'); c.assume(NE(A.r,n)); ix=[c.int('i%d'%q) for q in range(n)]
    c.run('get%d_%s'%(n,k),([] if k=='d' else [c.out('o')])+[A.ptr]+ix,expect='abort')
@spec('C03',k=['d','z'],n=[2,3,4,5,6])
def wrong_rank_write(c,k,n):
    A=c.tensor('A',k,mode='own'); c.assume(NE(A.r,n)); ix=[c.int('i%d'%q) for q in range(n)]
    c.run('set%d_%s'%(n,k),[A.ptr]+ix+[c.zref('v','z') if k=='z' else c.real('v')],expect='abort')
@spec('C03',k=['d','z'])
def flat_write(c,k):
    """at(i) with one index addresses the storage of a tensor of any rank"""
    A=c.tensor('A',k,mode='own'); i=c.int('i'); c.assume(inside(i,A.n))
    v=c.zref('v','z') if k=='z' else c.real('v')
    val=(lambda e: Var('v.%d'%e,'R')) if k=='z' else lambda e: v
    for st,_ in c.run('set1_'+k,[A.ptr,i,v]):
        R=c.tview(st,A.ptr); R.rank_is(A.r); q=fresh('q'); R.dim(q,A.d(q),[GE(q,0),LT(q,A.r)])
        R.elems([A.n],lambda q: q,lambda cc,q: Ite(EQ(q,Norm(i,A.n)),val(cc),A.at(q,cc)))
@spec('C03',k=['d','z'],mode=['own','shared'])
def sequential(c,k,mode):
    A=c.tensor('A',k,mode=mode); i=c.int('i'); c.assume(GE(i,0),LT(i,A.n))
    if k=='d':
        for st,r in c.run('flat_d',[A.ptr,i]): c.prove_eq(st,r,A.at(i,0),'element read')
    else:
        o=c.out('o')
        for st,r in c.run('flat_z',[o,A.ptr,i]):
            for e in(0,8): c.prove_eq(st,st.mem[o.obj].cells[e][1],A.at(i,e),'element read')
    v=c.zref('v','z') if k=='z' else c.real('v')
    val=(lambda e: Var('v.%d'%e,'R')) if k=='z' else lambda e: v
    for st,_ in c.run('seq_'+k,[A.ptr,i,v]):
        R=c.tview(st,A.ptr); R.rank_is(A.r); R.data.fresh()
        R.elems([A.n],lambda q: q,lambda cc,q: Ite(EQ(q,i),val(cc),A.at(q,cc)))
@spec('C03',k=['d','z'])
def queries(c,k):
    A=c.tensor('A',k)
    for st,r in c.run('rank_'+k,[A.ptr]): c.prove_eq(st,r,A.r,'rank')
    for st,r in c.run('size_'+k,[A.ptr]): c.prove_eq(st,r,A.n,'size')
@spec('C03',k=['d','z'],n=R16)
def get_dimensions(c,k,n):
    A=c.tensor('A',k,n); o=c.out('o',8*n)
    for st,_ in c.run('gd%d_%s'%(n,k),[A.ptr,o]):
        for q in range(n): c.prove_eq(st,st.mem[o.obj].cells[8*q][1],A.d(q),'dimension')
@spec('C03',k=['d','z'],n=R16)
def get_dimensions_rank(c,k,n):
    A=c.tensor('A',k); c.assume(NE(A.r,n)); c.run('gd%d_%s'%(n,k),[A.ptr,c.out('o',8*n)],expect='abort')
@spec('C03',k=['d','z'])
def dimension(c,k):
    A=c.tensor('A',k); i=c.int('i'); c.assume(GE(i,0),LT(i,A.r))
    for st,r in c.run('dim_'+k,[A.ptr,i]): c.prove_eq(st,r,A.d(i),'dimension')
@spec('C03',k=['d','z'])
def dimension_bad(c,k):
    A=c.tensor('A',k); i=c.int('i'); c.assume(Or(LT(i,0),GE(i,A.r))); c.run('dim_'+k,[A.ptr,i],expect='abort')
@spec('C03',k=['d','z'],fn=['rows','cols'])
def matrix_sizes(c,k,fn):
    A=c.tensor('A',k,2)
    for st,r in c.run(fn+'_'+k,[A.ptr]): c.prove_eq(st,r,A.d(0 if fn=='rows' else 1),fn)
norm_contract('C03')
for f in(read,write,bad_read,bad_write,wrong_rank,wrong_rank_write,flat_write): f.prims=[NORM]
