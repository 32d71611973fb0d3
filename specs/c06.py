from rangespecs import *
TUS=['@c06','tensor/tensor_d.cc','tensor/tensor_z.cc']+RTUS
register('C06')
def leaves2(c,A,r,pre,injective):
    if r==1: return [opaque(c,pre+'1',c.int('n'+pre+'1',0),A.n,limited=False,injective=injective)]
    return [opaque(c,'%s%d'%(pre,i+1),c.int('n%s%d'%(pre,i+1),0),A.d(i),limited=False,injective=injective) for i in range(r)]
def total(rs):
    n=ONE
    for r in rs: n=n*r.n
    return n
def top(st,rs):
    if len(rs)==1: return rs[0]
    z=[ZERO]*len(rs); return product_facts(st,rs,z)[1]
def position(rs,es):
    p=ZERO; s=ONE
    for r,e in zip(rs,es): p=p+r.f(e)*s; s=s*r.limit
    return p
def written(c,st,A,rs,exp,name='selected elements'):
    """A(positions) == exp(comp, running number, es); everything else as before; storage no longer shared"""
    v=c.vview(st,A.ptr); d=c.vview(st,Ptr(A.ptr.obj,A.ptr.off+8))
    v.len_is(A.n,'number of elements unchanged'); d.len_is(A.r,'rank unchanged')
    i=c.int('dim!',0); f=st.facts.add(LT(i,A.r)); c.prove(st,EQ(read_content(c.ex,f,d.buf.content,i,0),A.d(i)),'dimensions unchanged',f)
    for r in rs: c.prove(st,EQ(ghost(st,r,DEL),1),'range deleted once')
    t=top(st,rs); p=lambda es: lin(rs,es)
    fact=lambda *es: And(*product_facts(st,rs,es)[0]) if len(rs)>1 else TRUE
    es=[c.int('e%d!'%i,0) for i in range(len(rs))]; f=st.facts.add(*[LT(e,r.n) for e,r in zip(es,rs)]).add(fact(*es))
    c.prove(st,EQ(t.f(p(es)),position(rs,es)),'position of the element',f)
    v.elems([r.n for r in rs],lambda *es: t.f(p(es)),exp,name=name,when=fact)
    v.elems([A.n],lambda x:x,lambda cc,x: A.at(x,cc),name='other elements',when=lambda x: Not(t.selected(x)))
@spec('C06','assign_scalar',None,rank=[1,2,3,4,5,6],k=['d','z'],mode=['own','shared'])
def assign_scalar(c,rank,k,mode):
    A=c.tensor('A',k,r=rank if rank>1 else None,mode=mode); rs=leaves2(c,A,rank,'r',True)
    v=c.real('v') if k=='d' else c.zref('v')
    for st,_ in c.run('set_s%d_%s'%(rank,k),[A.ptr]+[r.ptr for r in rs]+[v]):
        written(c,st,A,rs,lambda cc,*es: v if k=='d' else Var('v.%d'%cc,'R'))
assign_scalar.prims=PRIMS_PRODUCT
@spec('C06','assign_tensor',None,rank=[1,2,3,4,5,6],k=['d','z'],mode=['own','shared'])
def assign_tensor(c,rank,k,mode):
    A=c.tensor('A',k,r=rank if rank>1 else None,mode=mode); rs=leaves2(c,A,rank,'r',True); B=c.tensor('B',k)
    c.assume(EQ(B.n,total(rs)))
    for st,_ in c.run('set_t%d_%s'%(rank,k),[A.ptr]+[r.ptr for r in rs]+[B.ptr]):
        written(c,st,A,rs,lambda cc,*es: B.at(lin(rs,es),cc))
assign_tensor.prims=PRIMS_PRODUCT
@spec('C06','assign_itself',None,k=['d','z'],mode=['own','shared'])
def assign_itself(c,k,mode):
    A=c.tensor('A',k,mode=mode); rs=leaves2(c,A,1,'r',True); c.assume(EQ(A.n,total(rs)))
    for st,_ in c.run('set_t1_'+k,[A.ptr,rs[0].ptr,A.ptr]): written(c,st,A,rs,lambda cc,*es: A.at(lin(rs,es),cc))
assign_itself.prims=PRIMS_PRODUCT
@spec('C06','assign_slice',None,rank=[1,2,3,4,5,6],k=['d','z'],source=['other','shared','itself'])
def assign_slice(c,rank,k,source):
    """the target is a slice of A, the source a slice of another tensor, of a tensor sharing A's elements, or of A itself"""
    A=c.tensor('A',k,r=rank if rank>1 else None,mode='shared' if source=='shared' else 'own'); rs=leaves2(c,A,rank,'r',True)
    if source=='other': B=c.tensor('B',k,r=rank if rank>1 else None); bp=B.ptr
    elif source=='itself': B=A; bp=A.ptr
    else:
        B=A; o=Cells('B',16,'param'); o.abs=dict(c.st.mem['A'].abs); c.st.mem['B']=o; bp=Ptr('B',0)
    qs=leaves2(c,B,rank,'q',False); c.assume(EQ(total(qs),total(rs)))
    if rank>1: c.assume(*[EQ(q.n,r.n) for q,r in zip(qs,rs)])
    for st,_ in c.run('set_v%d_%s'%(rank,k),[A.ptr]+[r.ptr for r in rs]+[bp]+[q.ptr for q in qs]):
        for q in qs: c.prove(st,EQ(ghost(st,q,DEL),1),'range deleted once')
        t=top(st,qs)
        f=st
        written(c,st,A,rs,lambda cc,*es: B.at(t.f(lin(rs,es)),cc))
        es=[c.int('g%d!'%i,0) for i in range(rank)]
        f=st.facts.add(*[LT(e,r.n) for e,r in zip(es,qs)])
        if rank>1: f=f.add(*product_facts(st,qs,es)[0])
        c.prove(st,EQ(t.f(lin(qs,es)),position(qs,es)),'position of the source element',f)
assign_slice.prims=PRIMS_PRODUCT
@spec('C06','assign_size',None,rank=[1,2,3,4,5,6],k=['d','z'],source=['t','v'])
def assign_size(c,rank,k,source):
    A=c.tensor('A',k,r=rank if rank>1 else None,mode='own'); rs=leaves2(c,A,rank,'r',True)
    B=c.tensor('B',k,r=rank if rank>1 else None)
    if source=='t': c.assume(NE(B.n,total(rs))); c.run('set_t%d_%s'%(rank,k),[A.ptr]+[r.ptr for r in rs]+[B.ptr],expect='abort')
    else:
        qs=leaves2(c,B,rank,'q',False); c.assume(NE(total(qs),total(rs)))
        c.run('set_v%d_%s'%(rank,k),[A.ptr]+[r.ptr for r in rs]+[B.ptr]+[q.ptr for q in qs],expect='abort')
assign_size.prims=PRIMS_PRODUCT
@spec('C06','assign_rank',None,rank=[2,3,4,5,6],k=['d','z'])
def assign_rank(c,rank,k):
    A=c.tensor('A',k,mode='own'); c.assume(NE(A.r,rank)); rs=leaves2(c,A,rank,'r',True)
    c.run('set_s%d_%s'%(rank,k),[A.ptr]+[r.ptr for r in rs]+[c.real('v') if k=='d' else c.zref('v')],expect='abort')
assign_rank.prims=PRIMS_PRODUCT
