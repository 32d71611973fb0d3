from spec import *
from blas import *
TUS=['@c11','tensor/tensor_fold_d.cc','tensor/tensor_fold_z.cc','tensor/tensor_fold_dz.cc','tensor/tensor_foldin_d.cc','tensor/tensor_foldin_z.cc','tensor/tensor_to_complex.cc']
P_=[NORM]+PRIMS_BLAS+PRIMS_IO
K={'d':'dd','z':'zz','dz':'dz','zd':'zd'}
def fold_setup(c,k,ok=True):
    A=c.tensor('A',K[k][0]); B=c.tensor('B',K[k][1]); i=c.int('i'); j=c.int('j')
    if ok: c.assume(GE(i,-A.r),LT(i,A.r),GE(j,-B.r),LT(j,B.r))
    return A,B,i,j,Norm(i,A.r),Norm(j,B.r)
def cval(T,k,p,e): return T.at(p,e) if k=='z' or e==0 else ZERO
def product(A,ka,pa,B,kb,pb,cc,conj=False):
    """component cc of A[pa]*B[pb]"""
    a=[cval(A,ka,pa,0),cval(A,ka,pa,8)]; b=[cval(B,kb,pb,0),cval(B,kb,pb,8)]
    if conj: a[1]=-a[1]
    return a[0]*b[0]-a[1]*b[1] if cc==0 else a[0]*b[1]+a[1]*b[0]
def is_fold(c,st,o,A,B,m,n,k,conj=False):
    R=c.tview(st,o); L=A.d(m)
    a1,a2=A.P(ZERO,m),A.P(m+1,A.r); b1,b2=B.P(ZERO,n),B.P(n+1,B.r)
    R.data.len_is(a1*a2*b1*b2)
    if prove(st.facts,And(EQ(A.r,1),EQ(B.r,1))): R.rank_is(1); R.dim(ZERO,ONE)
    else:
        R.rank_is(A.r+B.r-2)
        q=fresh('q')
        R.dim(q,A.d(q),[GE(q,0),LT(q,m)]); R.dim(q,A.d(q+1),[GE(q,m),LT(q,A.r-1)])
        w=q-(A.r-1)
        R.dim(q,B.d(w),[GE(w,0),LT(w,n)]); R.dim(q,B.d(w+1),[GE(w,n),LT(w,B.r-1)])
    def val(cc,x,y,u,v):
        l=fresh('l')
        return Sum(l,L,product(A,K[k][0],x+a1*(l+L*y),B,K[k][1],u+b1*(l+L*v),cc,conj))
    R.elems([a1,a2,b1,b2],lambda x,y,u,v: x+a1*(y+a2*(u+b1*v)),val)
@spec('C11',k=['d','z','dz','zd'],fn=['fold','foldc'])
def fold(c,k,fn):
    A,B,i,j,m,n=fold_setup(c,k)
    c.assume(EQ(A.d(m),B.d(n)),GE(A.d(m),1))
    o=c.out()
    for st,_ in c.run(fn+'_'+k,[o,A.ptr,i,B.ptr,j]): is_fold(c,st,o,A,B,m,n,k,fn=='foldc')
@spec('C11',k=['d','z','dz','zd'])
def mmult(c,k):
    A=c.tensor('A',K[k][0]); B=c.tensor('B',K[k][1]); c.assume(GE(A.r,1),GE(B.r,1))
    m,n=A.r-1,ZERO
    c.assume(EQ(A.d(m),B.d(n)),GE(A.d(m),1))
    o=c.out()
    for st,_ in c.run('mmult_'+k,[o,A.ptr,B.ptr]): is_fold(c,st,o,A,B,m,n,k)
@spec('C11')
def fold_into(c):
    A,B,i,j,m,n=fold_setup(c,'d'); C=c.tensor('C','d',mode='own')
    c.assume(EQ(A.d(m),B.d(n)),GE(A.d(m),1))
    for st,_ in c.run('finto_d',[C.ptr,A.ptr,i,B.ptr,j]): is_fold(c,st,C.ptr,A,B,m,n,'d')
@spec('C11')
def mmult_into(c):
    A=c.tensor('A'); B=c.tensor('B'); C=c.tensor('C','d',mode='own'); c.assume(GE(A.r,1),GE(B.r,1))
    c.assume(EQ(A.d(A.r-1),B.d(ZERO)),GE(B.d(ZERO),1))
    for st,_ in c.run('minto_d',[C.ptr,A.ptr,B.ptr]): is_fold(c,st,C.ptr,A,B,A.r-1,ZERO,'d')
@spec('C11',k=['d','z','dz','zd'],fn=['fold','foldc'])
def fold_bad_index(c,k,fn):
    A,B,i,j,m,n=fold_setup(c,k,False); c.assume(Or(LT(i,-A.r),GE(i,A.r),LT(j,-B.r),GE(j,B.r)))
    c.run(fn+'_'+k,[c.out(),A.ptr,i,B.ptr,j],expect='abort')
@spec('C11',k=['d','z','dz','zd'],fn=['fold','foldc'])
def fold_unequal(c,k,fn):
    A,B,i,j,m,n=fold_setup(c,k); c.assume(NE(A.d(m),B.d(n)))
    c.run(fn+'_'+k,[c.out(),A.ptr,i,B.ptr,j],expect='abort')
@spec('C11',k=['d','z','dz','zd'])
def mmult_unequal(c,k):
    A=c.tensor('A',K[k][0]); B=c.tensor('B',K[k][1]); c.assume(GE(A.r,1),GE(B.r,1),NE(A.d(A.r-1),B.d(ZERO)))
    c.run('mmult_'+k,[c.out(),A.ptr,B.ptr],expect='abort')
@spec('C11')
def into_unequal(c):
    A,B,i,j,m,n=fold_setup(c,'d'); C=c.tensor('C','d',mode='own'); c.assume(NE(A.d(m),B.d(n)))
    c.run('finto_d',[C.ptr,A.ptr,i,B.ptr,j],expect='abort')
# foldin: the surviving dimensions of A replace the contracted one of B
def is_foldin(c,st,o,A,B,m,n,k):
    R=c.tview(st,o); L=A.d(m)
    a1,a2=A.P(ZERO,m),A.P(m+1,A.r); b1,b2=B.P(ZERO,n),B.P(n+1,B.r)
    R.data.len_is(a1*a2*b1*b2)
    if prove(st.facts,And(EQ(A.r,1),EQ(B.r,1))): R.rank_is(1); R.dim(ZERO,ONE)
    else:
        R.rank_is(A.r+B.r-2)
        q=fresh('q'); w=q-n
        R.dim(q,B.d(q),[GE(q,0),LT(q,n)])
        R.dim(q,A.d(w),[GE(w,0),LT(w,m)]); R.dim(q,A.d(w+1),[GE(w,m),LT(w,A.r-1)])
        R.dim(q,B.d(q-A.r+2),[GE(q,n+A.r-1),LT(q,A.r+B.r-2)])
    def val(cc,u,x,y,v):
        l=fresh('l')
        return Sum(l,L,product(A,k,x+a1*(l+L*y),B,k,u+b1*(l+L*v),cc))
    R.elems([b1,a1,a2,b2],lambda u,x,y,v: u+b1*(x+a1*(y+a2*v)),val)
@spec('C11',k=['d','z'])
def foldin(c,k):
    A,B,i,j,m,n=fold_setup(c,k)
    c.assume(EQ(A.d(m),B.d(n)))
    o=c.out()
    for st,_ in c.run('foldin_'+k,[o,A.ptr,i,B.ptr,j]): is_foldin(c,st,o,A,B,m,n,k)
@spec('C11')
def foldin_into(c):
    A,B,i,j,m,n=fold_setup(c,'d'); C=c.tensor('C','d',mode='own')
    c.assume(EQ(A.d(m),B.d(n)))
    for st,_ in c.run('fininto_d',[C.ptr,A.ptr,i,B.ptr,j]): is_foldin(c,st,C.ptr,A,B,m,n,'d')
@spec('C11',k=['d','z'],bad=[0,1])
def foldin_bad(c,k,bad):
    A,B,i,j,m,n=fold_setup(c,k,bool(bad))
    c.assume(NE(A.d(m),B.d(n)) if bad else Or(LT(i,-A.r),GE(i,A.r),LT(j,-B.r),GE(j,B.r)))
    c.run('foldin_'+k,[c.out(),A.ptr,i,B.ptr,j],expect='abort')
normalize_index=norm_contract('C11')
for f in(fold,mmult,fold_into,mmult_into,fold_bad_index,fold_unequal,mmult_unequal,into_unequal,foldin,foldin_into,foldin_bad): f.prims=P_
