from spec import *
TUS=['@c15']+['tensor/tensor_%s_%s.cc'%(f,k) for f in('change_dimension','squeeze','flatten','reshape') for k in'dz']+['tensor/tensor_squeeze.cc','indices/surrounding_dimensions.cc']
norm_contract('C15')
@spec('C15',k=['d','z'],s=['+','-'],how=['grow','shrink','same'])
def change_dimension(c,k,s,how):
    A=c.tensor('A',k); n=c.int('n'); N=c.int('N',0); c.assume(*([GE(n,0),LT(n,A.r)] if s=='+' else [LT(n,0),GE(n,-A.r)])); m=n if s=='+' else n+A.r; o=c.out()
    d=A.d(m); p,q=A.P(ZERO,m),A.P(m+1,A.r); c.assume({'grow':GT,'shrink':LT,'same':EQ}[how](N,d))
    for st,_ in c.run('chd_'+k,[o,A.ptr,n,N]):
        R=c.tview(st,o); R.rank_is(A.r); e=fresh('e'); R.dim(e,A.d(e),[GE(e,0),LT(e,A.r),NE(e,m)]); R.dim(m,N); R.data.len_is(p*N*q if how!='same' else A.n)
        if how=='same': R.elems([A.n],lambda x:x,lambda cc,x:A.at(x,cc)); continue
        R.data.fresh(); L=N if how=='shrink' else d
        R.elems([p,L,q],lambda x,y,z:x+p*(y+N*z),lambda cc,x,y,z:A.at(x+p*(y+d*z),cc),name='kept elements')
        if how=='grow': R.elems([p,(d,N),q],lambda x,y,z:x+p*(y+N*z),lambda cc,x,y,z:ZERO,name='new positions')
change_dimension.prims=[NORM]
@spec('C15',k=['d','z'],bad=['>=r','<-r'])
def change_dimension_bad_dimension_aborts(c,k,bad):
    A=c.tensor('A',k); n=c.int('n'); c.assume(GE(n,A.r) if bad=='>=r' else LT(n,-A.r)); c.run('chd_'+k,[c.out(),A.ptr,n,c.int('N',0)],expect='abort')
change_dimension_bad_dimension_aborts.prims=[NORM]
@spec('C15',k=['d','z'])
def flatten(c,k):
    A=c.tensor('A',k); o=c.out()
    for st,_ in c.run('fl_'+k,[o,A.ptr]):
        R=c.tview(st,o); R.shape([A.n]); R.elems([A.n],lambda x:x,lambda cc,x:A.at(x,cc))
@spec('C15',k=['d','z'],r=['1','2','3','4','5','6'])
def reshape(c,k,r):
    A=c.tensor('A',k); o=c.out(); d=[c.int('d%d'%i,0) for i in range(int(r))]; n=ONE
    for x in d: n=n*x
    c.assume(EQ(A.n,n))
    for st,_ in c.run('rs%s_'%r+k,[o,A.ptr]+d):
        R=c.tview(st,o); R.shape(d); R.elems([A.n],lambda x:x,lambda cc,x:A.at(x,cc))
@spec('C15',k=['d','z'],r=['1','2','3','4','5','6'])
def reshape_other_size_aborts(c,k,r):
    A=c.tensor('A',k); d=[c.int('d%d'%i,0) for i in range(int(r))]; n=ONE
    for x in d: n=n*x
    c.assume(NE(A.n,n)); c.run('rs%s_'%r+k,[c.out(),A.ptr]+d,expect='abort')
@spec('C15',k=['d','z'],f=['rs','rsm'])
def reshape_list(c,k,f):
    A=c.tensor('A',k,mode='in' if f=='rs' else 'own'); d=c.vector('d','l',nonneg=True); o=c.out(); c.assume(EQ(A.n,Prod('d',ZERO,d.n)),GE(d.n,1))
    for st,_ in c.run(f+'_'+k,[o,A.ptr,d.ptr] if f=='rs' else [A.ptr,d.ptr]):
        R=c.tview(st,o if f=='rs' else A.ptr); R.rank_is(d.n); e=fresh('e'); R.dim(e,d.at(e),[GE(e,0),LT(e,d.n)]); R.data.len_is(A.n); R.elems([A.n],lambda x:x,lambda cc,x:A.at(x,cc))
@spec('C15',k=['d','z'],f=['rs','rsm'])
def reshape_list_other_size_aborts(c,k,f):
    A=c.tensor('A',k,mode='in' if f=='rs' else 'own'); d=c.vector('d','l',nonneg=True); o=c.out(); c.assume(NE(A.n,Prod('d',ZERO,d.n)),GE(d.n,1))
    c.run(f+'_'+k,[o,A.ptr,d.ptr] if f=='rs' else [A.ptr,d.ptr],expect='abort')
# ---- squeeze: the list of dimensions, what it implies for the number of elements (induction), and the tensor
QV=fresh('qv')
def keep(d): return lambda x:Ite(EQ(Sel(d,x,0,'I'),1),ZERO,ONE)
def count(d,m): return Sum(QV,m,keep(d)(QV))
@spec('C15',case=['some','none'])
def squeeze_dimensions(c,case):
    d=c.vector('d','l',nonneg=True); cnt=lambda m:count('d',m); o=c.out(size=8)
    c.assume(GE(d.n,1),GE(cnt(d.n),1) if case=='some' else EQ(cnt(d.n),0))
    for st,_ in c.run('sqd',[o,d.ptr]):
        V=c.vview(st,o); V.fresh()
        if case=='none': V.len_is(ONE); V.elems([ONE],lambda x:x,lambda cc,x:ONE); continue
        V.len_is(cnt(d.n)); V.elems([d.n],lambda x:cnt(x),lambda cc,x:d.at(x),when=lambda x:NE(d.at(x),1))
@spec('C15',case=['base','kept','dropped','none base','none step'])
def squeeze_product_lemma(c,case):
    """induction on k: product of the first count(k) entries of the result = product of the first k dimensions, all non-negative"""
    k=c.int('k',0); V=lambda x:Sel('V',x,0,'I'); d=lambda x:Sel('d',x,0,'I'); f=c.st.facts; f.axioms['nonneg:d']=True; f.axioms['d']=lambda a:[GE(a.poly,0)]; n=count('d',k); n1=count('d',k+1); m=c.int('m',0)
    if case=='base': c.prove(c.st,EQ(Prod('V',ZERO,count('d',ZERO)),Prod('d',ZERO,ZERO)),'base'); return
    if case=='none base': c.prove(c.st,EQ(Prod('d',ZERO,ZERO),1),'base'); return
    if case=='none step': c.assume(EQ(d(k),1),EQ(Prod('d',ZERO,k),1)); c.prove(c.st,EQ(Prod('d',ZERO,k)*d(k),1),'step'); return
    c.assume(EQ(Prod('V',ZERO,n),Prod('d',ZERO,k)),Forall([QV],Implies(And(GE(QV,0),LT(QV,n)),GE(V(QV),0))))
    if case=='kept':
        c.assume(NE(d(k),1),EQ(V(n),d(k))); c.prove(c.st,EQ(n1,n+1),'count'); c.prove(c.st,GE(n,0),'position')
        c.assume(LE(m,n)); c.prove(c.st,EQ(Prod('V',ZERO,n)*V(n),Prod('d',ZERO,k)*d(k)),'step'); c.prove(c.st,GE(V(m),0),'sign')
    else: c.assume(EQ(d(k),1)); c.prove(c.st,EQ(n1,n),'count'); c.prove(c.st,EQ(Prod('V',ZERO,n),Prod('d',ZERO,k)*d(k)),'step')
def c_squeeze(ex,st,a,name):
    """call-site contract (squeeze_dimensions + squeeze_product_lemma)"""
    b=st.mem[st.mem[a[1].obj].abs[a[1].off.const()].buf]
    if b.content.parent is not None or b.content.base[0]!='init': raise Unsupported('dimensions of squeeze are not an argument')
    d=b.content.base[1]; outs=[]; n=count(d,b.n); ex.require(st,GE(b.n,1),'squeeze_dimensions: at least one dimension')
    for g in(GE(n,1),EQ(n,0)):
        s=st.copy(); s.assume(g); s.br=st.br+(g,)
        if not feasible(s.facts): continue
        id=newid('sq'); q=fresh('q')
        if g.k=='<=':
            s.facts.axioms['nonneg:'+id]=True; s.facts.axioms[id]=lambda a:[GE(a.poly,0)]
            s.mem[id]=Buf(id,8,'long',n,init_content(id,'I')); s.assume(EQ(Prod(id,ZERO,n),Prod(d,ZERO,b.n)),Forall([q],Implies(And(GE(q,0),LT(q,b.n),NE(Sel(d,q,0,'I'),1)),EQ(Sel(id,count(d,q),0,'I'),Sel(d,q,0,'I')))))
        else: s.mem[id]=Buf(id,8,'long',ONE,Content(None,None,('const',ONE))); s.assume(EQ(Prod(d,ZERO,b.n),1))
        s.w(a[0].obj).abs[a[0].off.const()]=AbsRef(id); outs.append((s,'ret',None))
    return outs
@spec('C15',k=['d','z'],case=['some','none'])
def squeeze(c,k,case):
    A=c.tensor('A',k); o=c.out(); n=count('A.d',A.r); c.assume(GE(n,1) if case=='some' else EQ(n,0))
    for st,_ in c.run('sq_'+k,[o,A.ptr]):
        R=c.tview(st,o); R.rank_is(n if case=='some' else 1); R.data.len_is(A.n); R.elems([A.n],lambda x:x,lambda cc,x:A.at(x,cc))
        if case=='some': R.dims.elems([A.r],lambda x:count('A.d',x),lambda cc,x:A.d(x),name='shape: kept dimensions',when=lambda x:NE(A.d(x),1))
        else: R.shape([ONE])
squeeze.prims=[(r'tensor::squeeze_dimensions\(.*',c_squeeze)]
