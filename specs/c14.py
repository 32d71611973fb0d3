from spec import *
TUS=['@c14','tensor/tensor_kron_d.cc','tensor/tensor_kron_z.cc','tensor/tensor_kron2_sum_d.cc','tensor/tensor_kron2_sum_z.cc']
def mul(x,y,cc,k):
    if k=='d': return x(0)*y(0)
    return x(0)*y(0)-x(8)*y(8) if cc==0 else x(0)*y(8)+x(8)*y(0)
@spec('C14',k=['d','z'],fn=['kron','kron2'])
def kron(c,k,fn):
    """first operand outer for kron, inner for kron2"""
    A=c.tensor('A',k,2); B=c.tensor('B',k,2)
    X,Y=(B,A) if fn=='kron' else (A,B)        # X inner, Y outer
    o=c.out()
    I,K,J,L=X.d(0),X.d(1),Y.d(0),Y.d(1)
    for st,_ in c.run(fn+'_'+k,[o,A.ptr,B.ptr]):
        R=c.tview(st,o); R.shape([I*J,K*L])
        R.elems([I,J,K,L],lambda i,j,p,l: i+I*(j+J*(p+K*l)),
                lambda cc,i,j,p,l: mul(lambda e: X.at(i+I*p,e),lambda e: Y.at(j+J*l,e),cc,k))
@spec('C14',k=['d','z'],fn=['kron','kron2'])
def kron_vectors(c,k,fn):
    A=c.tensor('A',k,1); B=c.tensor('B',k,1)
    X,Y=(B,A) if fn=='kron' else (A,B)
    o=c.out()
    for st,_ in c.run(fn+'_'+k,[o,A.ptr,B.ptr]):
        R=c.tview(st,o); R.shape([X.d(0)*Y.d(0)])
        R.elems([X.d(0),Y.d(0)],lambda i,j: i+X.d(0)*j,lambda cc,i,j: mul(lambda e: X.at(i,e),lambda e: Y.at(j,e),cc,k))
@spec('C14',k=['d','z'])
def kron2_sum(c,k):
    """A (x) 1 + 1 (x) B, first operand outer"""
    A=c.tensor('A',k,2); B=c.tensor('B',k,2); c.assume(EQ(A.d(0),A.d(1)),EQ(B.d(0),B.d(1)))
    I,K,J,L=B.d(0),B.d(1),A.d(0),A.d(1)
    o=c.out()
    for st,_ in c.run('ksum_'+k,[o,A.ptr,B.ptr]):
        R=c.tview(st,o); R.shape([I*J,K*L])
        R.elems([I,J,K,L],lambda i,j,p,l: i+I*(j+J*(p+K*l)),
                lambda cc,i,j,p,l: Ite(EQ(i,p),A.at(j+J*l,cc),0)+Ite(EQ(j,l),B.at(i+I*p,cc),0))
@spec('C14',k=['d','z'])
def kron2_sum_vectors(c,k):
    A=c.tensor('A',k,1); B=c.tensor('B',k,1); o=c.out(); I,J=B.d(0),A.d(0)
    for st,_ in c.run('ksum_'+k,[o,A.ptr,B.ptr]):
        R=c.tview(st,o); R.shape([I*J])
        R.elems([I,J],lambda i,j: i+I*j,lambda cc,i,j: B.at(i,cc)+A.at(j,cc))
@spec('C14',k=['d','z'],fn=['kron','kron2','ksum'])
def rank_mismatch(c,k,fn):
    A=c.tensor('A',k); B=c.tensor('B',k); c.assume(Or(NE(A.r,B.r),GT(A.r,2)))
    c.run(fn+'_'+k,[c.out(),A.ptr,B.ptr],expect='abort')
