from spec import *
TUS=['@c09','indices/concat.cc','indices/linspace_d.cc','indices/linspace_z.cc','indices/surrounding_dimensions.cc','indices/to_tensor.cc','views/range.cc','generated/tensor_minus_tt_double.cc','generated/tensor_plus_tt_double.cc','generated/tensor_times_tn_double.cc','generated/tensor_divide_tn_double.cc','generated/tensor_minus_tt_cdouble.cc','generated/tensor_plus_tt_cdouble.cc','generated/tensor_times_tn_cdouble.cc','generated/tensor_divide_tn_cdouble.cc']
@spec('C09')
def concatenation(c):
    a=c.vector('A','l'); b=c.vector('B','l'); o=c.out()
    for st,_ in c.run('cat',[o,a.ptr,b.ptr]):
        R=c.vview(st,o); R.fresh(); R.len_is(a.n+b.n)
        R.elems([a.n],lambda q:q,lambda cc,q:a.at(q),'first list'); R.elems([b.n],lambda q:a.n+q,lambda cc,q:b.at(q),'second list')
@spec('C09')
def concatenation_with_itself(c):
    a=c.vector('A','l',mode='shared'); o=c.out()
    for st,_ in c.run('cat',[o,a.ptr,a.ptr]):
        R=c.vview(st,o); R.fresh(); R.len_is(a.n*2)
        R.elems([a.n],lambda q:q,lambda cc,q:a.at(q)); R.elems([a.n],lambda q:a.n+q,lambda cc,q:a.at(q))
@spec('C09',f=['irange','irange1'])
def integer_range(c,f):
    a=c.int('a'); b=c.int('b'); c.assume(GE(b,a))
    if f=='irange': s=c.int('s',1)
    else: s=ONE
    o=c.out()
    for st,_ in c.run(f,[o,a,b]+([s] if f=='irange' else [])):
        R=c.vview(st,o); R.fresh()
        c.prove(st,And(LE(a+s*(R.n-1),b),GT(a+s*R.n,b),GE(R.n,1)),'ends at the last value not above the limit')
        R.elems([R.n],lambda q:q,lambda cc,q:a+s*q,'equidistant from the start')
@spec('C09',f=['irange','irange1'])
def integer_range_empty(c,f):
    a=c.int('a'); b=c.int('b'); c.assume(LT(b,a)); o=c.out()
    for st,_ in c.run(f,[o,a,b]+([c.int('s',1)] if f=='irange' else [])): c.vview(st,o).len_is(0)
@spec('C09')
def total_size(c):
    n=c.int('n',1); d=c.vector('d','l',n,nonneg=True)
    for st,v in c.run('total',[d.ptr]): c.prove(st,EQ(v,Prod('d',ZERO,n)),'product of the entries')
@spec('C09')
def surrounding(c):
    n=c.int('n',1); d=c.vector('d','l',n,nonneg=True); i=c.int('i',0); c.assume(LT(i,n))
    o=[c.cell('o%d'%k,0) for k in range(3)]
    for st,_ in c.run('surr',[d.ptr,i]+o):
        g=[st.mem['o%d'%k].cells[0][1] for k in range(3)]
        c.prove(st,EQ(g[0],Prod('d',ZERO,i)),'product before'); c.prove(st,EQ(g[1],d.at(i)),'size at'); c.prove(st,EQ(g[2],Prod('d',i+1,n)),'product after')
@spec('C09')
def index_to_tensor(c):
    a=c.vector('A','l'); o=c.out()
    for st,_ in c.run('itot',[o,a.ptr]):
        R=c.tview(st,o); R.shape([a.n]); R.elems([a.n],lambda q:q,lambda cc,q:a.at(q))
def ends(k,c):
    if k=='d': x,y=c.real('a'),c.real('b'); return [x,y],[x],[y]
    p,q=c.zref('a'),c.zref('b'); return [p,q],[Var('a.0','R'),Var('a.8','R')],[Var('b.0','R'),Var('b.8','R')]
@spec('C09',k=['d','z'],n=['0','1','>=2'])
def linspace_scalar(c,k,n):
    ps,x,y=ends(k,c); m=P(int(n)) if n in'01' else c.int('n',2); o=c.out()
    for st,_ in c.run('lin_'+k,[o]+ps+[m]):
        R=c.tview(st,o); R.shape([m])
        if n=='1': R.elems([ONE],lambda q:q,lambda cc,q:x[cc//8])
        if n=='>=2': R.elems([m],lambda q:q,lambda cc,q:x[cc//8]+q*(y[cc//8]-x[cc//8])*Inv(m-1))
@spec('C09',k=['d','z'],n=['0','1','>=2'],d=['1','>=2'])
def linspace_tensor(c,k,n,d):
    a=c.tensor('a',k); b=c.like('b',a,k); m=P(int(n)) if n in'01' else c.int('n',2); o=c.out()
    c.assume(EQ(a.n,1) if d=='1' else GE(a.n,2))
    for st,_ in c.run('lint_'+k,[o,a.ptr,b.ptr,m]):
        R=c.tview(st,o); R.data.fresh() if n!='1' else None
        if d=='1': R.shape([m])
        else:
            R.rank_is(a.r+1); q=fresh('q'); R.dim(q,a.d(q),[GE(q,0),LT(q,a.r)]); R.dim(a.r,m); R.data.len_is(a.n*m)
        if n=='1': R.elems([a.n],lambda i:i,lambda cc,i:a.at(i,cc))
        if n=='>=2': R.elems([a.n,m],lambda i,q:i+a.n*q,lambda cc,i,q:a.at(i,cc)+q*(b.at(i,cc)-a.at(i,cc))*Inv(m-1))
@spec('C09',k=['d','z'])
def linspace_tensor_sizes_abort(c,k):
    a=c.tensor('a',k); b=c.tensor('b',k); c.assume(NE(a.n,b.n)); c.run("lint_"+k,[c.out(),a.ptr,b.ptr,c.int("n",2)],expect="abort")#'+k,[c.out(),a.ptr,b.ptr,c.int('n',2)],expect='abort')
