from spec import *
TUS=['@c16']+['tensor/%s.cc'%f for f in 'tensor_sum_d tensor_sum_z tensor_mean_d tensor_mean_z tensor_min_d tensor_max_d tensor_norm0_d tensor_norm0_z tensor_norm2_d tensor_norm2_z matrix_norminf_d matrix_norminf_z tensor_mean_ndx_d tensor_mean_ndx_z tensor_reshape_d tensor_reshape_z'.split()]
norm_contract('C16')
def call(c,f,k,args):
    """(state, components of the value)"""
    if k=='d': return [(st,[v]) for st,v in c.run(f+'_d',args)]
    o=c.cell('o',{0:ZERO,8:ZERO}); return [(st,[st.mem['o'].cells[x][1] for x in(0,8)]) for st,_ in c.run(f+'_z',args+[o])]
def absval(A,k,i):
    x=A.at(i)
    return Ite(LT(x,0),-x,x) if k=='d' else App('cabs',A.at(i,0),A.at(i,8))
@spec('C16',k=['d','z'],f=['sum','mean'])
def total(c,k,f):
    A=c.tensor('A',k); i=fresh('i')
    for st,v in call(c,f,k,[A.ptr]):
        for x,cc in zip(v,(0,8)):
            w=Sum(i,A.n,A.at(i,cc)); c.prove_eq(st,x,w if f=='sum' else w*Inv(A.n),'every element once')
@spec('C16',f=['min','max'])
def extreme(c,f):
    A=c.tensor('A'); c.assume(GE(A.n,1)); B=c.real('B'); t=fresh('t'); op=LE if f=='max' else GE
    c.assume(Forall([t],Implies(And(GE(t,0),LT(t,A.n)),op(A.at(t),B))))
    for st,v in c.run(f+'_d',[A.ptr]):
        q=fresh('q')
        up=[(lambda s:lambda a,k:Forall([q],Implies(And(GE(q,0),LT(q,k+s)),op(A.at(q),a))))(s) for s in(0,1)]+[(lambda s:lambda a,k:Forall([q],Implies(And(GE(q,0),LT(q,k+s)),op(A.at(q),A.at(a)))))(s) for s in(0,1)]
        rng=[lambda a,k:And(GE(a,0),LE(a,k)),lambda a,k:op(a,B)]
        f2=fold_facts(st.facts,v,up+rng); e=c.int('e'); f2=f2.add(GE(e,0),LT(e,A.n))
        c.prove(st,op(A.at(e),v),'bounds every element',f2); c.prove(st,op(v,B),'tightest bound',f2)
@spec('C16',f=['min','max'])
def extreme_of_nothing_aborts(c,f):
    A=c.tensor('A'); c.assume(EQ(A.n,0)); c.run(f+'_d',[A.ptr],expect='abort')
@spec('C16',k=['d','z'])
def norm0(c,k):
    A=c.tensor('A',k); B=c.real('B'); t=fresh('t'); c.assume(GE(B,0),Forall([t],Implies(And(GE(t,0),LT(t,A.n)),LE(absval(A,k,t),B))))
    for st,v in c.run('norm0_'+k,[A.ptr]):
        q=fresh('q'); inv=[lambda a,n:Forall([q],Implies(And(GE(q,0),LT(q,n)),LE(absval(A,k,q),a))),lambda a,n:LE(a,B),lambda a,n:GE(a,0)]
        f2=fold_facts(st.facts,v,inv); e=c.int('e'); f2=f2.add(GE(e,0),LT(e,A.n))
        c.prove(st,LE(absval(A,k,e),v),'bounds every modulus',f2); c.prove(st,And(LE(v,B),GE(v,0)),'tightest bound',f2)
@spec('C16',k=['d','z'],f=['scprod','norm2'])
def products(c,k,f):
    A=c.tensor('A',k); i=fresh('i'); b=c.like('b',A,k) if f=='scprod' else A
    ar,br=A.at(i),b.at(i); ai,bi=(A.at(i,8),b.at(i,8)) if k=='z' else (ZERO,ZERO)
    re,im=Sum(i,A.n,ar*br+ai*bi),Sum(i,A.n,ai*br-ar*bi)
    if f=='norm2':
        for st,v in c.run('norm2_'+k,[A.ptr]): c.prove_eq(st,v,App('sqrt',re),'root of the sum of squared moduli')
    else:
        for st,v in call(c,f,k,[A.ptr,b.ptr]):
            for x,w in zip(v,(re,im)): c.prove_eq(st,x,w,'sum of products')
@spec('C16',k=['d','z'])
def norminf(c,k):
    A=c.tensor('A',k,2); B=c.real('B'); t=fresh('t'); j=fresh('j'); row=lambda i:Sum(j,A.d(1),absval(A,k,i+A.d(0)*j))
    c.assume(GE(B,0),Forall([t],Implies(And(GE(t,0),LT(t,A.d(0))),LE(row(t),B))))
    for st,v in c.run('norminf_'+k,[A.ptr]):
        q=fresh('q'); inv=[lambda a,n:Forall([q],Implies(And(GE(q,0),LT(q,n)),LE(row(q),a))),lambda a,n:LE(a,B),lambda a,n:GE(a,0)]
        f2=fold_facts(st.facts,v,inv); e=c.int('e'); f2=f2.add(GE(e,0),LT(e,A.d(0)))
        c.prove(st,LE(row(e),v),'bounds every row sum',f2); c.prove(st,And(LE(v,B),GE(v,0)),'tightest bound',f2)
@spec('C16',k=['d','z'])
def norminf_rank_aborts(c,k):
    A=c.tensor('A',k); c.assume(NE(A.r,2)); c.run('norminf_'+k,[A.ptr],expect='abort')
@spec('C16',k=['d','z'],s=['+','-'],rank=['1','>=2'])
def mean_along(c,k,s,rank):
    A=c.tensor('A',k,1 if rank=='1' else c.int('A.r',2)); n=c.int('n'); c.assume(*([GE(n,0),LT(n,A.r)] if s=='+' else [LT(n,0),GE(n,-A.r)])); m=n if s=='+' else n+A.r; o=c.out(); l=fresh('l')
    p,d,q=A.P(ZERO,m),A.d(m),A.P(m+1,A.r)
    for st,_ in c.run('meann_'+k,[o,A.ptr,n]):
        R=c.tview(st,o); R.data.fresh()
        if rank=='1': R.shape([1]); R.elems([ONE],lambda x:x,lambda cc,x:Sum(l,A.n,A.at(l,cc))*Inv(A.n)); continue
        R.rank_is(A.r-1); e=fresh('e'); R.dim(e,A.d(e),[GE(e,0),LT(e,m)]); e=fresh('e'); R.dim(e-1,A.d(e),[GT(e,m),LT(e,A.r)]); R.data.len_is(p*q)
        R.elems([p,q],lambda x,z:x+p*z,lambda cc,x,z:Sum(l,d,A.at(x+p*(l+d*z),cc))*Inv(d))
mean_along.prims=[NORM]
@spec('C16',k=['d','z'],bad=['>=r','<-r'])
def mean_along_bad_dimension_aborts(c,k,bad):
    A=c.tensor('A',k); n=c.int('n'); c.assume(GE(A.r,2),GE(n,A.r) if bad=='>=r' else LT(n,-A.r)); c.run('meann_'+k,[c.out(),A.ptr,n],expect='abort')
mean_along_bad_dimension_aborts.prims=[NORM]
