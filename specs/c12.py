from spec import *
TUS=['@c12','tensor/tensor_scale_d.cc','tensor/tensor_scale_z.cc','indices/surrounding_dimensions.cc','tensor/tensor_to_complex.cc']
norm_contract('C12')
def pieces(A,m): return A.P(ZERO,m),A.d(m),A.P(m+1,A.r)
def prod2(k,A,v,i,j,cc):
    x=A.at(i,cc)
    if k!='z': return x*v.at(j)
    xr,xi=A.at(i,0),A.at(i,8); yr,yi=v.at(j,0),v.at(j,8)
    return xr*yr-xi*yi if cc==0 else xr*yi+xi*yr
@spec('C12',k=['d','z','zd'],f=['scale','inplace','inplace of a shared tensor'],sgn=['n>=0','n<0'])
def scale(c,k,f,sgn):
    A=c.tensor('A',k[0],mode={'scale':'in','inplace':'own'}.get(f,'shared')); n=c.int('n'); c.assume(*([GE(n,0),LT(n,A.r)] if sgn=='n>=0' else [LT(n,0),GE(n,-A.r)]))
    m=n if sgn=='n>=0' else n+A.r
    p,d,q=pieces(A,m); v=c.tensor('v',k[-1])
    c.assume(EQ(v.n,d))
    o=c.out() if f=='scale' else A.ptr
    for st,_ in c.run(('scale_' if f=='scale' else 'inp_')+k,([o] if f=='scale' else [])+[A.ptr,n,v.ptr]):
        R=c.tview(st,o); R.rank_is(A.r); e=fresh('e'); R.dim(e,A.d(e),[GE(e,0),LT(e,A.r)]); R.data.len_is(A.n)
        if f=='scale': R.data.fresh()
        R.elems([p,d,q],lambda i,j,l:i+p*(j+d*l),lambda cc,i,j,l:prod2(k,A,v,i+p*(j+d*l),j,cc))
scale.prims=[NORM]
@spec('C12',k=['d','z','zd'],f=['scale','inplace'],bad=['length','n>=r','n<-r'])
def scale_aborts(c,k,f,bad):
    A=c.tensor('A',k[0],mode='in' if f=='scale' else 'own'); n=c.int('n'); v=c.tensor('v',k[-1])
    if bad=='length': c.assume(GE(n,0),LT(n,A.r),NE(v.n,A.d(n)))
    else: c.assume(GE(n,A.r) if bad=='n>=r' else LT(n,-A.r))
    c.run(('scale_' if f=='scale' else 'inp_')+k,([c.out()] if f=='scale' else [])+[A.ptr,n,v.ptr],expect='abort')
