from spec import *
TUS=['@c07']+['generated/tensor_%s_%s_%s.cc'%(o,f,t) for o in('plus','minus','times','divide') for f in('tt','tn','t1') for t in('double','cdouble') if not(f=='t1' and o in('times','divide'))]
TUS+=['generated/tensor_unop_%s_%s.cc'%(f,k) for f in 'abs sqrt exp cos sin tan cosh sinh tanh log'.split() for k in 'dz']
TUS+=['tensor/tensor_%s.cc'%x for x in('common','round_d','conj','to_complex','imag_d','real_z','imag_z')]
def lift(k,f): return [f(0),f(8) if k=='z' else ZERO]
def cdivv(a,b): 
    return [App('divdc3.0',*a,*b),App('divdc3.8',*a,*b)]
def OPV(op,kk,x,y):
    """value of the elementwise operation; x,y = [re,im]"""
    if op=='add': return [x[0]+y[0],x[1]+y[1]]
    if op=='sub': return [x[0]-y[0],x[1]-y[1]]
    if op=='mul': return [x[0]*y[0]-x[1]*y[1],x[0]*y[1]+x[1]*y[0]]
    return cdiv(x,y)
def res(kk): return 'z' if 'z' in kk else 'd'
def same_shape(c,R,A):
    R.rank_is(A.r); R.data.len_is(A.n); q=fresh('q'); R.dim(q,A.d(q),[GE(q,0),LT(q,A.r)])
def eqshape(c,A,B):
    """the second operand's storage has the same number of elements, in the same dimensions"""
    c.same_dims(A,B)
@spec('C07',op=['add','sub','mul','div'],kk=['dd','zz','dz','zd'])
def tensor_tensor(c,op,kk):
    A=c.tensor('A',kk[0]); B=c.like('B',A,kk[1]); o=c.out()
    for st,_ in c.run('%s_tt_%s'%(op,kk),[o,A.ptr,B.ptr]):
        R=c.tview(st,o); same_shape(c,R,A)
        R.elems([A.n],lambda x:x,lambda cc,x:OPV(op,kk,lift(kk[0],lambda e:A.at(x,e)),lift(kk[1],lambda e:B.at(x,e)))[cc//8])
@spec('C07',op=['add','sub','mul','div'],kk=['dd','zz','dz','zd'])
def tensor_scalar(c,op,kk):
    A=c.tensor('A',kk[0]); b=c.zref('b',kk[1]); o=c.out(); bv=lift(kk[1],lambda e:Var('b.%d'%e,'R'))
    for st,_ in c.run('%s_tn_%s'%(op,kk),[o,A.ptr,b]):
        R=c.tview(st,o); same_shape(c,R,A)
        R.elems([A.n],lambda x:x,lambda cc,x:OPV(op,kk,lift(kk[0],lambda e:A.at(x,e)),bv)[cc//8])
@spec('C07',op=['add','sub','mul','div'],kk=['dd','zz','dz','zd'])
def scalar_tensor(c,op,kk):
    A=c.tensor('A',kk[1]); b=c.zref('b',kk[0]); o=c.out(); bv=lift(kk[0],lambda e:Var('b.%d'%e,'R'))
    for st,_ in c.run('%s_nt_%s'%(op,kk),[o,b,A.ptr]):
        R=c.tview(st,o); same_shape(c,R,A)
        R.elems([A.n],lambda x:x,lambda cc,x:OPV(op,kk,bv,lift(kk[1],lambda e:A.at(x,e)))[cc//8])
@spec('C07',op=['add','sub','mul','div'],kk=['dd','zz','zd'],mode=['inout','shared'])
def inplace_tensor(c,op,kk,mode):
    A=c.tensor('A',kk[0],mode=mode); B=c.like('B',A,kk[1])
    for st,_ in c.run('%s_it_%s'%(op,kk),[A.ptr,B.ptr]):
        R=c.tview(st,A.ptr); same_shape(c,R,A); R.data.fresh()
        R.elems([A.n],lambda x:x,lambda cc,x:OPV(op,kk,lift(kk[0],lambda e:A.at(x,e)),lift(kk[1],lambda e:B.at(x,e)))[cc//8])
@spec('C07',op=['add','sub','mul','div'],k=['d','z'])
def inplace_self(c,op,k):
    A=c.tensor('A',k,mode='inout')
    for st,_ in c.run('%s_it_%s'%(op,k+k),[A.ptr,A.ptr]):
        R=c.tview(st,A.ptr); same_shape(c,R,A)
        v=lambda x:lift(k,lambda e:A.at(x,e))
        R.elems([A.n],lambda x:x,lambda cc,x:OPV(op,k+k,v(x),v(x))[cc//8])
@spec('C07',op=['add','sub','mul','div'],kk=['dd','zz','zd'],mode=['inout','shared'])
def inplace_scalar(c,op,kk,mode):
    A=c.tensor('A',kk[0],mode=mode); b=c.zref('b',kk[1]); bv=lift(kk[1],lambda e:Var('b.%d'%e,'R'))
    for st,_ in c.run('%s_in_%s'%(op,kk),[A.ptr,b]):
        R=c.tview(st,A.ptr); same_shape(c,R,A); R.data.fresh()
        R.elems([A.n],lambda x:x,lambda cc,x:OPV(op,kk,lift(kk[0],lambda e:A.at(x,e)),bv)[cc//8])
@spec('C07',op=['add','sub','mul','div'],k=['d','z'])
def inplace_own_element(c,op,k):
    """a op= a[j]: the scalar operand is an element of the target"""
    A=c.tensor('A',k,mode='inout'); j=c.int('j',0); c.assume(LT(j,A.n))
    for st,_ in c.run('%s_in_%s'%(op,k+k),[A.ptr,Ptr('A.data',j*ESZ[KD[k]])]):
        R=c.tview(st,A.ptr); same_shape(c,R,A)
        R.elems([A.n],lambda x:x,lambda cc,x:OPV(op,k+k,lift(k,lambda e:A.at(x,e)),lift(k,lambda e:A.at(j,e)))[cc//8])
FUN='sqrt exp log sin cos tan sinh cosh tanh'.split()
@spec('C07',f=FUN+['neg','conj','abs','real','imag','toc'],k=['d','z'])
def unary(c,f,k):
    A=c.tensor('A',k); o=c.out()
    for st,_ in c.run('u_%s_%s'%(f,k),[o,A.ptr]):
        R=c.tview(st,o); same_shape(c,R,A)
        def v(cc,x):
            a=lift(k,lambda e:A.at(x,e)); i=cc//8
            if f=='neg': return -a[i]
            if f=='conj': return a[0] if i==0 else -a[1]
            if f=='toc': return a[i]
            if f=='real': return a[0]
            if f=='imag': return a[1]
            if f=='abs': return Ite(LT(a[0],0),-a[0],a[0]) if k=='d' else App('cabs',*a)
            return App(f,a[0]) if k=='d' else App('c%s.%d'%(f,cc),*a)
        R.elems([A.n],lambda x:x,v)
@spec('C07')
def round_(c):
    A=c.tensor('A','d'); o=c.out()
    for st,_ in c.run('u_round_d',[o,A.ptr]):
        R=c.tview(st,o); same_shape(c,R,A); R.elems([A.n],lambda x:x,lambda cc,x:App('round',A.at(x)))
@spec('C07')
def to_complex_two(c):
    A=c.tensor('A','d'); B=c.like('B',A,'d'); o=c.out()
    for st,_ in c.run('u_toc2_d',[o,A.ptr,B.ptr]):
        R=c.tview(st,o); same_shape(c,R,A); R.elems([A.n],lambda x:x,lambda cc,x:A.at(x) if cc==0 else B.at(x))
# --------------------------------------------------- operands with different numbers of elements abort
@spec('C07',op=['add','sub','mul','div'],kk=['dd','zz','dz','zd'])
def mismatch(c,op,kk):
    A=c.tensor('A',kk[0]); B=c.tensor('B',kk[1]); c.assume(NE(A.n,B.n)); o=c.out()
    c.run('%s_tt_%s'%(op,kk),[o,A.ptr,B.ptr],expect='abort')
@spec('C07',op=['add','sub','mul','div'],kk=['dd','zz','zd'])
def mismatch_inplace(c,op,kk):
    A=c.tensor('A',kk[0],mode='inout'); B=c.tensor('B',kk[1]); c.assume(NE(A.n,B.n))
    c.run('%s_it_%s'%(op,kk),[A.ptr,B.ptr],expect='abort')
@spec('C07')
def mismatch_to_complex(c):
    A=c.tensor('A','d'); B=c.tensor('B','d'); c.assume(NE(A.n,B.n)); o=c.out()
    c.run('u_toc2_d',[o,A.ptr,B.ptr],expect='abort')
