from spec import *
TUS=['@c10','tensor/tensor_permute_d.cc','tensor/tensor_permute_z.cc','tensor/matrix_transpose_d.cc','tensor/matrix_transpose_z.cc','tensor/matrix_adjoint.cc','tensor/matrix_adjoint_z.cc']
@spec('C10',k=['d','z'],order=['<','>','='])
def permute(c,k,order):
    A=c.tensor('A',k); i=c.int('i'); j=c.int('j')
    c.assume(GE(i,-A.r),LT(i,A.r),GE(j,-A.r),LT(j,A.r))
    m,n=Norm(i,A.r),Norm(j,A.r)
    c.assume({'<':LT,'>':GT,'=':EQ}[order](m,n))
    if order=='>': m,n=n,m
    o=c.out()
    for st,_ in c.run('permute_'+k,[o,A.ptr,i,j]):
        R=c.tview(st,o)
        R.rank_is(A.r); R.data.len_is(A.n)
        if order=='=':
            q=fresh('q'); R.dim(q,A.d(q),[GE(q,0),LT(q,A.r)])
            R.elems([A.n],lambda x:x,lambda cc,x:A.at(x,cc)); continue
        q=fresh('q')
        R.dim(q,A.d(q),[GE(q,0),LT(q,A.r),NE(q,m),NE(q,n)]); R.dim(m,A.d(n)); R.dim(n,A.d(m))
        p1,p2,p3=A.P(ZERO,m),A.P(m+1,n),A.P(n+1,A.r); dm,dn=A.d(m),A.d(n)
        R.elems([p1,dn,p2,dm,p3],lambda x,b,y,a,z: x+p1*(b+dn*(y+p2*(a+dm*z))),
                lambda cc,x,b,y,a,z: A.at(x+p1*(a+dm*(y+p2*(b+dn*z))),cc))
permute.prims=[NORM]

@spec('C10',k=['d','z'],f=['transpose','adjoint'])
def matrix(c,k,f):
    A=c.tensor('A',k,2); o=c.out()
    for st,_ in c.run(f+'_'+k,[o,A.ptr]):
        R=c.tview(st,o); R.shape([A.d(1),A.d(0)]); R.data.fresh()
        s=-1 if f=='adjoint' else 1
        R.elems([A.d(1),A.d(0)],lambda j,i: j+A.d(1)*i, lambda cc,j,i: A.at(i+A.d(0)*j,cc)*(s if cc==8 else 1))
@spec('C10',k=['d','z'],f=['transpose','adjoint'])
def matrix_rank_aborts(c,k,f):
    A=c.tensor('A',k); c.assume(NE(A.r,2)); c.run(f+'_'+k,[c.out(),A.ptr],expect='abort')
@spec('C10',k=['d','z'],bad=['i>=r','i<-r','j>=r','j<-r'])
def permute_bad_index_aborts(c,k,bad):
    A=c.tensor('A',k); i=c.int('i'); j=c.int('j'); v=i if bad[0]=='i' else j
    c.assume(GE(v,A.r) if '>=' in bad else LT(v,-A.r)); c.run('permute_'+k,[c.out(),A.ptr,i,j],expect='abort')
permute_bad_index_aborts.prims=[NORM]
norm_contract('C10')
