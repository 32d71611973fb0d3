from sparsespec import *
TUS=['@c19']+['sparse/%s_%s.cc'%(f,k) for f in('mmult_sparse_tensor','mmult_tensor_sparse','sparse') for k in 'dz']+['tensor/tensor_d.cc','tensor/tensor_z.cc','indices/indices.cc']
def mul(x,y,cc,k):
    if k=='d': return x(0)*y(0)
    return x(0)*y(0)-x(8)*y(8) if cc==0 else x(0)*y(8)+x(8)*y(0)
@spec('C19',k=['d','z'])
def sparse_times_tensor(c,k):
    """out(i,l) = sum over the stored entries x of row i of value[x] T(column[x],l)"""
    S=sparse(c,'S',k); T=c.tensor('T',k); c.assume(EQ(T.d(0),S.C)); o=c.out(); L=T.A.P(1,T.r) if hasattr(T,'A') else T.P(1,T.r)
    for st,_ in c.run('left_'+k,[o,S.ptr,T.ptr]):
        R=c.tview(st,o); R.rank_is(T.r); R.data.len_is(S.R*L); q=fresh('q'); R.dim(ZERO,S.R,[]); R.dim(q,T.d(q),[GE(q,1),LT(q,T.r)]); R.data.fresh(); v=fresh('v')
        R.elems([S.R,L],lambda i,l: i+S.R*l,lambda cc,i,l: Sum(v,S.rs(i+1)-S.rs(i),mul(lambda e:S.at(S.rs(i)+v,e),lambda e:T.at(S.co(S.rs(i)+v)+S.C*l,e),cc,k)))
@spec('C19',k=['d','z'],side=['left','right'])
def unequal_sizes(c,k,side):
    S=sparse(c,'S',k); T=c.tensor('T',k); c.assume(NE(T.d(0),S.C) if side=='left' else NE(T.d(T.r-1),S.R))
    c.run('%s_%s'%(side,k),[c.out()]+([S.ptr,T.ptr] if side=='left' else [T.ptr,S.ptr]),expect='abort')
@spec('C19',k=['d','z'])
def tensor_times_sparse(c,k):
    """out(i,l) = sum over the rows j and the stored entries x of row j with column[x]=l of T(i,j) value[x]"""
    S=sparse(c,'S',k); T=c.tensor('T',k); c.assume(EQ(T.d(T.r-1),S.R)); o=c.out(); L=T.P(0,T.r-1)
    for st,_ in c.run('right_'+k,[o,T.ptr,S.ptr]):
        R=c.tview(st,o); R.rank_is(T.r); R.data.len_is(S.C*L); q=fresh('q'); R.dim(T.r-1,S.C,[]); R.dim(q,T.d(q),[GE(q,0),LT(q,T.r-1)]); R.data.fresh(); v=fresh('v'); j=fresh('j')
        R.elems([L,S.C],lambda i,l: i+L*l,lambda cc,i,l: Sum(j,S.R,Sum(v,S.rs(j+1)-S.rs(j),Ite(EQ(S.co(S.rs(j)+v),l),mul(lambda e:T.at(i+L*j,e),lambda e:S.at(S.rs(j)+v,e),cc,k),0))))
