"""contracts of RefPointer, proved against its body (no abstraction of the references here); shared by C01 and C02"""
from spec import *
class Rep:
    """where the representation keeps its parts, found by running the real constructor"""
    pass
BYTES={'d':8,'z':16,'l':8,'b':1}
def state(c,name,k,refs,owned,n=None):
    """a RefPointer in a general state: 'refs' holders of a buffer with n elements, owned by the library or not"""
    n=c.int(name+'.n',0) if n is None else n; kind=KD[k]
    c.st.mem[name+'.data']=Buf(name+'.data',ESZ[kind],kind,n,init_content(name,sort_of(kind)))
    c.st.mem[name]=Cells(name,8,'param'); 
    if k=='b': c.st.facts.axioms[name]=lambda a:[GE(a.poly,0),LE(a.poly,1)]
    r=Rep(); r.name=name; r.n=n; r.k=k; r.refs=P(refs); r.owned=owned; r.ptr=Ptr(name,0)
    outs=c.run('rp_wrap_'+k,[r.ptr,Ptr(name+'.data',0),n,TRUE if owned else FALSE])
    if len(outs)!=1: raise Unsupported('construction of a reference has several outcomes')
    c.st=outs[0][0].copy(); q=c.st.mem[name].cells[0][1]; r.q=q.obj
    # a second holder changes exactly one cell of the shared object: the number of holders
    c.st.mem[name+'!']=Cells(name+'!',8,'param'); before=dict(c.st.mem[r.q].cells)
    s2=c.run('rp_copy_'+k,[Ptr(name+'!',0),r.ptr])[0][0]; after=s2.mem[r.q].cells
    ch=[o for o in after if after[o]!=before.get(o)]
    if len(ch)!=1 or after[ch[0]][1]-before[ch[0]][1]!=ONE: raise Failed('copying increases the number of holders by one')
    r.cnt=ch[0]; r.base=before[r.cnt][1]-1; c.st.w(r.q).cells[r.cnt]=(before[r.cnt][0],r.base+r.refs); del c.st.mem[name+'!']; return r
def refs(st,r): return st.mem[r.q].cells[r.cnt][1]-r.base
def target(st,name): return st.mem[name].cells[0][1]
def data(st,q): return [x for _,x in st.mem[q].cells.values() if isinstance(x,Ptr) and x.obj is not None][0]
def check(c,st,ok,name):
    c.ex.log(name,bool(ok))
    if not ok: raise Failed(name)
def intact(c,st,r,what='storage of the other holders'):
    check(c,st,not st.mem[r.q].freed and not st.mem[r.name+'.data'].freed,what+' is alive')
    check(c,st,st.mem[r.name+'.data'].content is c.st.mem[r.name+'.data'].content,what+' is unchanged')
def left(c,st,r):
    """r's holder has gone: one holder less, and released exactly when it was the last"""
    d=st.mem[r.name+'.data']; last=prove(st.facts,EQ(r.refs,1)); more=prove(st.facts,GT(r.refs,1))
    if not last and not more: raise Failed('release decides whether this was the last holder')
    if last:
        check(c,st,st.mem[r.q].freed,'reference object released with its last holder'); check(c,st,d.freed==r.owned,'elements released if and only if owned')
    else:
        check(c,st,refs(st,r)==r.refs-1,'one holder less'); intact(c,st,r)
def cases(st,r):
    """last holder / not the last"""
    return
def fresh_copy(c,st,r,q,n,content=True):
    """q is a reference object of its own: one holder, own buffer of n elements"""
    check(c,st,q!=r.q and not st.mem[q].freed,'reference object of its own'); d=data(st,q)
    check(c,st,d.obj!=r.name+'.data' and not st.mem[d.obj].freed and d.off==ZERO,'elements of its own')
    return d
def register(prop):
    K=['d','z','l','b']
    def new(c,st,q,n,r,k):
        """q holds a fresh library-owned buffer with n elements and one holder: decided by comparing with the representation of r"""
        o=st.mem[q]; d=data(st,q); b=st.mem[d.obj]; check(c,st,d.off==ZERO and not b.freed,'buffer is alive')
        kind=KD[k]; sz=b.n*b.esz; c.prove(st,EQ(sz,P(n)*BYTES[k]),'buffer has room for all elements')
        ref=c.st.mem[r.q].cells
        for off,(s,v) in ref.items():
            w=o.cells.get(off)
            if isinstance(v,Ptr): check(c,st,isinstance(w[1],Ptr),'representation')
            elif off==r.cnt: c.prove(st,EQ(w[1],r.base+1),'a single holder')
            elif isinstance(v,Poly) and v==r.n and not r.n.is_const(): c.prove(st,EQ(w[1],n),'length is recorded')
            else: check(c,st,w is not None and w[1]==v,'owned by the library')
        return b
    def general(c,k,owned,name='p'):
        m=c.int(name+'.r',1); return state(c,name,k,m,owned)
    @spec(prop,'ref_default',k=K)
    def ref_default(c,k):
        c.st.mem['x']=Cells('x',8,'param')
        for st,_ in c.run('rp_default_'+k,[Ptr('x',0)]):
            c.st=st
            for s,v in c.run('rp_size_'+k,[Ptr('x',0)]): c.prove_eq(s,v,0,'no elements')
            for s,v in c.run('rp_count_'+k,[Ptr('x',0)]): c.prove_eq(s,v,1,'one holder')
            for s,v in c.run('rp_dtor_'+k,[Ptr('x',0)]): check(c,s,s.mem[target(st,'x').obj].freed,'released')
    @spec(prop,'ref_alloc',k=K)
    def ref_alloc(c,k):
        r=general(c,k,True); c.st.mem['x']=Cells('x',8,'param'); n=c.int('n',0)
        for st,_ in c.run('rp_alloc_'+k,[Ptr('x',0),n]):
            new(c,st,target(st,'x').obj,n,r,k)
            c.st=st; b=data(st,target(st,'x').obj).obj
            for s,v in c.run('rp_dtor_'+k,[Ptr('x',0)]): check(c,s,s.mem[b].freed and s.mem[target(st,'x').obj].freed,'released with its only holder')
    @spec(prop,'ref_wrap_default',k=K)
    def ref_wrap_default(c,k):
        c.st.mem['x']=Cells('x',8,'param'); n=c.int('n',0); kind=KD[k]; c.st.mem['e']=Buf('e',ESZ[kind],kind,n,init_content('e',sort_of(kind)))
        for st,_ in c.run('rp_wrap0_'+k,[Ptr('x',0),Ptr('e',0),n]):
            c.st=st
            for s,v in c.run('rp_dtor_'+k,[Ptr('x',0)]): check(c,s,s.mem['e'].freed,'data handed over is owned unless said otherwise')
    @spec(prop,'ref_copy',k=K,owned=[True,False])
    def ref_copy(c,k,owned):
        r=general(c,k,owned); c.st.mem['x']=Cells('x',8,'param')
        for st,_ in c.run('rp_copy_'+k,[Ptr('x',0),r.ptr]):
            check(c,st,target(st,'x').obj==r.q and target(st,'p').obj==r.q,'both hold the same elements'); c.prove_eq(st,refs(st,r),r.refs+1,'one holder more'); intact(c,st,r)
    @spec(prop,'ref_destroy',k=K,owned=[True,False])
    def ref_destroy(c,k,owned):
        r=general(c,k,owned); seen=0
        for st,_ in c.run('rp_dtor_'+k,[r.ptr]): left(c,st,r); seen+=1
        check(c,c.st,seen>=2,'both outcomes reached')
    @spec(prop,'ref_assign',k=K,owned=[True,False],owned2=[True,False])
    def ref_assign(c,k,owned,owned2):
        r=general(c,k,owned); s=general(c,k,owned2,'s')
        for st,v in c.run('rp_assign_'+k,[r.ptr,s.ptr]):
            check(c,st,v==r.ptr,'returns the target'); check(c,st,target(st,'p').obj==s.q and target(st,'s').obj==s.q,'both hold the elements of the source')
            c.prove_eq(st,refs(st,s),s.refs+1,'one holder more'); intact(c,st,s); left(c,st,r)
    @spec(prop,'ref_assign_same',k=K,owned=[True,False],which=['itself','copy'])
    def ref_assign_same(c,k,owned,which):
        r=general(c,k,owned); q=r.ptr
        if which=='copy':
            c.assume(GE(r.refs,2)); o=Cells('x',8,'param'); o.cells=dict(c.st.mem['p'].cells); c.st.mem['x']=o; q=Ptr('x',0)
        for st,_ in c.run('rp_assign_'+k,[r.ptr,q]):
            check(c,st,target(st,'p').obj==r.q,'still the same elements'); c.prove_eq(st,refs(st,r),r.refs,'as many holders'); intact(c,st,r)
    @spec(prop,'ref_write',k=K,owned=[True,False],f=['begin','end'])
    def ref_write(c,k,owned,f):
        r=general(c,k,owned); kind=KD[k]; alone=many=0
        for st,v in c.run('rp_%s_%s'%(f,k),[r.ptr]):
            at=P(0) if f=='begin' else r.n*BYTES[k]; q=target(st,'p').obj
            intact(c,st,r)
            if prove(st.facts,EQ(r.refs,1)):
                alone+=1; check(c,st,q==r.q and v.obj=='p.data','written in place while unshared'); c.prove_eq(st,v.off,at,'pointer to the elements'); c.prove_eq(st,refs(st,r),1,'a single holder')
            elif prove(st.facts,GT(r.refs,1)):
                many+=1; check(c,st,q!=r.q,'detached from the other holders'); c.prove_eq(st,refs(st,r),r.refs-1,'one holder less')
                if owned:
                    b=new(c,st,q,r.n,r,k)
                else:
                    d=data(st,q); b=st.mem[d.obj]; c.prove(st,EQ(b.n*b.esz,r.n*BYTES[k]),'buffer has room for all elements')
                d=data(st,q); check(c,st,v.obj==d.obj,'pointer into the new elements'); c.prove_eq(st,v.off,at,'pointer to the elements')
                i=c.int('i!',0); f2=st.facts.add(GE(i,0),LT(i,r.n))
                for cc in comps_of(kind) if feasible(f2) else ():
                    i2,c2=(i,cc) if b.esz==BYTES[k] else (i*(BYTES[k]//b.esz)+cc//8,0)
                    c.prove(st,EQ(read_content(c.ex,f2,b.content,i2,c2),Sel('p',i,cc,sort_of(kind))),'same elements',f2)
                # and the new one is released by its holder
                c2=c.st; c.st=st
                for s2,_ in c.run('rp_dtor_'+k,[r.ptr]): check(c,s2,s2.mem[q].freed and s2.mem[d.obj].freed,'the detached elements belong to the library'); 
                c.st=c2
            else: raise Failed('sharing decides where to write')
        check(c,c.st,alone and many,'both outcomes reached')
    @spec(prop,'ref_read',k=K,owned=[True,False])
    def ref_read(c,k,owned):
        r=general(c,k,owned)
        for f,at in(('cbegin',ZERO),('cend',r.n*BYTES[k]),('cbegin2',ZERO),('cend2',r.n*BYTES[k])):
            for st,v in c.run('rp_%s_%s'%(f,k),[r.ptr]):
                check(c,st,v.obj=='p.data','reads the shared elements'); c.prove_eq(st,v.off,at,'position'); intact(c,st,r); c.prove_eq(st,refs(st,r),r.refs,'as many holders'); check(c,st,target(st,'p').obj==r.q,'same elements')
        for st,v in c.run('rp_size_'+k,[r.ptr]): c.prove_eq(st,v,r.n,'length')
        for st,v in c.run('rp_count_'+k,[r.ptr]): c.prove_eq(st,v,r.refs,'number of holders')
    @spec(prop,'ref_resize',k=K,owned=[True,False])
    def ref_resize(c,k,owned):
        r=general(c,k,owned); t=state(c,'t',k,c.int('t.r',1),True); n=c.int('n',0); seen=0
        for st,_ in c.run('rp_realloc_'+k,[r.ptr,n]):
            q=target(st,'p').obj; check(c,st,q!=r.q,'storage of its own'); new(c,st,q,n,t,k); left(c,st,r); seen+=1
        check(c,c.st,seen>=2,'both outcomes reached')
    for f in(ref_default,ref_alloc,ref_wrap_default,ref_copy,ref_destroy,ref_assign,ref_assign_same,ref_write,ref_read,ref_resize): f.bodies=r'tensor::RefPointer<'
