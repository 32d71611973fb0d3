from rangespecs import *
TUS=['@c05','tensor/tensor_d.cc','tensor/tensor_z.cc']+RTUS
register('C05')
@spec('C05','slice',None,rank=[1,2,3,4,5,6],k=['d','z'])
def slice_(c,rank,k):
    A=c.tensor('A',k,r=rank if rank>1 else None,mode='shared'); rs=leaves(c,A,rank); out=c.out()
    for st,_ in c.run('view%d_%s'%(rank,k),[out,A.ptr]+[r.ptr for r in rs]):
        v=c.tview(st,out); v.shape([r.n for r in rs]); v.data.fresh()
        for r in rs: c.prove(st,EQ(ghost(st,r,DEL),1),'range deleted once')
        def pos(*es):
            p=ZERO; s=ONE
            for i,(r,e) in enumerate(zip(rs,es)): p=p+r.f(e)*s; s=s*r.limit
            return p
        def fact(*es): return And(*product_facts(st,rs,es)[0]) if rank>1 else TRUE
        v.elems([r.n for r in rs],lambda *es: lin(rs,es),lambda cc,*es: A.at(pos(*es),cc),name='selected elements',when=fact)
slice_.prims=PRIMS_PRODUCT
@spec('C05','slice_rank',None,rank=[2,3,4,5,6],k=['d','z'])
def slice_rank(c,rank,k):
    A=c.tensor('A',k); c.assume(NE(A.r,rank)); rs=leaves(c,A,rank); out=c.out()
    c.run('view%d_%s'%(rank,k),[out,A.ptr]+[r.ptr for r in rs],expect='abort')
slice_rank.prims=PRIMS_PRODUCT
