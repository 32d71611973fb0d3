"""contracts of the containers over shared storage: independent values (C01) and release (C02).

The storage of every container taking part is in a general state: held by it alone or by others too,
allocated by the library or external.  'ledger' counts holders: after an operation every buffer has as many
owners as containers that reach it, it is released exactly when nobody holds it, and nothing allocated is lost.
"""
from spec import *
MODES=['own','shared','ext','extshared']
def must(c,ok,name,info=''):
    c.ex.log(name,bool(ok))
    if not ok: raise Failed(name,info)
def setmode(c,v,mode):
    """v: tensor or vector built with mode 'own'"""
    for off,r in c.st.mem[v.ptr.obj].abs.items():
        b=c.st.mem[r.buf]
        if 'shared' in mode: b.owners=2
        if 'ext' in mode: b.external=True
def vec(c,name,k,mode,n=None):
    v=c.vector(name,k,n,mode='own'); setmode(c,v,mode); v.mode=mode; return v
def ten(c,name,k,mode,like=None):
    v=c.like(name,like,k,mode='own') if like is not None else c.tensor(name,k,mode='own'); setmode(c,v,mode); v.mode=mode; return v
def bufs(c,v): return {off:r.buf for off,r in c.st.mem[v.ptr.obj].abs.items()}
def others(c,st):
    """storage that other containers hold too still has its contents and is alive"""
    for i,b in c.st.mem.items():
        if isinstance(b,Buf) and b.owners>=2 and i in st.mem: must(c,not st.mem[i].freed and st.mem[i].content is b.content and st.mem[i].n==b.n,'storage of the other holders is alive and unchanged',i)
def ledger(c,st):
    hold={}
    for i,o in st.mem.items():
        if isinstance(o,Cells) and not o.freed and o.kind!='stack':
            for r in o.abs.values(): hold[r.buf]=hold.get(r.buf,0)+1
    for i,b in c.st.mem.items():        # holders outside the picture
        if isinstance(b,Buf) and b.owners:
            seen=sum(1 for o in c.st.mem.values() if isinstance(o,Cells) for r in o.abs.values() if r.buf==i); hold[i]=hold.get(i,0)+b.owners-seen
    for i,b in st.mem.items():
        if not isinstance(b,Buf): 
            if b.kind=='heap': must(c,b.freed,'no allocation is lost',i)
            continue
        if b.raw: must(c,b.freed,'no allocation is lost',i); continue
        h=hold.get(i,0)
        must(c,b.owners==h,'as many owners as holders','%s: %d owners, %d holders'%(i,b.owners,h))
        if b.external: must(c,not b.freed,'external storage is never released',i)
        else: must(c,b.freed==(h==0),'storage is released exactly when the last holder is gone','%s: %d holders, %s'%(i,h,'released' if b.freed else 'alive'))
def done(c,st): others(c,st); ledger(c,st)
def same(c,st,p,v,name='contents'):
    """container at p reads v's contents at the time of the call"""
    r=st.mem[p.obj].abs.get(p.off.const()); must(c,r is not None and not st.mem[r.buf].freed,name+': initialised and alive')
    if hasattr(v,'r'):
        R=c.tview(st,p); R.rank_is(v.r); R.data.len_is(v.n); q=fresh('q'); R.dim(q,v.d(q),[GE(q,0),LT(q,v.r)]); R.elems([v.n],lambda x:x,lambda cc,x:v.at(x,cc),name)
    else:
        R=c.vview(st,p); R.len_is(v.n); R.elems([v.n],lambda x:x,lambda cc,x:v.at(x,cc),name)
def own(c,st,p,what='storage of its own'):
    b=st.mem[st.mem[p.obj].abs[p.off.const()].buf]; must(c,b.owners==1 and not b.external and not b.freed,what)
def inplace(c,st,p,v,off=0):
    """written in place while nobody else holds the storage"""
    b=st.mem[p.obj].abs[off].buf
    if 'shared' in v.mode: must(c,b!=bufs(c,v)[off],'detached from the other holders before the write')
    else: must(c,b==bufs(c,v)[off],'written in place while unshared')
def dead(c,st,name):
    st.w(name).freed=True
def register(prop):
    K=['d','z','l','b']; KT=['d','z']; IX=lambda p: ['vec','ix'] if p else ['vec']
    def fn(t,op,k): return 'ix_'+op if t=='ix' else '%s_%s_%s'%(t,op,k)
    def mk(c,t,name,k,mode,like=None): return ten(c,name,k,mode,like) if t=='ten' else vec(c,name,k,mode)
    def el(c,k):
        p=c.zref('e',k if k in 'dz' else 'd')
        if k in 'dz': return p,(lambda cc:Var('e.%d'%cc,'R'))
        x=Var('e.v')
        if k=='b': c.assume(GE(x,0),LE(x,1))
        cl=c.st.mem['e']; cl.cells={0:({'l':8,'b':1}[k],x)}; return p,(lambda cc:x)
    TK=['vec_'+k for k in K]+['ten_'+k for k in KT]+['ix_l']
    # ---- whole containers
    @spec(prop,tk=TK,mode=MODES)
    def copy(c,tk,mode):
        t,k=tk.split('_'); x=mk(c,t,'X',k,mode); o=c.out()
        for st,_ in c.run(fn(t,'copy',k),[o,x.ptr]): same(c,st,o,x,'contents of the copy'); same(c,st,x.ptr,x,'contents of the source'); done(c,st)
    @spec(prop,tk=TK,mode=['own','shared','ext'],mode2=['own','shared','ext'])
    def assign(c,tk,mode,mode2):
        t,k=tk.split('_'); x=mk(c,t,'X',k,mode); v=mk(c,t,'V',k,mode2)
        for st,_ in c.run(fn(t,'assign',k),[x.ptr,v.ptr]): same(c,st,x.ptr,v,'contents of the target'); same(c,st,v.ptr,v,'contents of the source'); done(c,st)
    @spec(prop,tk=TK,mode=MODES,which=['itself','copy'])
    def assign_same(c,tk,mode,which):
        t,k=tk.split('_'); x=mk(c,t,'X',k,mode); q=x.ptr
        if which=='copy':
            y=c.st.mem['X'].copy(); y.id='Y'; c.st.mem['Y']=y; q=Ptr('Y',0)
            for r in y.abs.values(): c.st.w(r.buf).owners+=1
        for st,_ in c.run(fn(t,'assign',k),[x.ptr,q]): same(c,st,x.ptr,x); same(c,st,q,x); done(c,st)
    @spec(prop,tk=[x for x in TK if x!='ix_l'],mode=MODES)
    def destroy(c,tk,mode):
        t,k=tk.split('_'); x=mk(c,t,'X',k,mode)
        for st,_ in c.run(fn(t,'dtor',k),[x.ptr]): must(c,not st.mem['X'].abs,'lets its storage go'); done(c,st)
    @spec(prop,k=K)
    def create(c,k):
        o=c.out(size=8); n=c.int('n',0)
        for st,_ in c.run('vec_make_'+k,[o,n]): c.vview(st,o).len_is(n); own(c,st,o); done(c,st)
    @spec(prop,tk=['vec_'+k for k in K]+['ten_'+k for k in KT])
    def create_empty(c,tk):
        t,k=tk.split('_'); o=c.out()
        for st,_ in c.run('%s_none_%s'%(t,k),[o]): c.vview(st,o).len_is(0); own(c,st,o); done(c,st)
    @spec(prop,k=K)
    def wrap(c,k):
        o=c.out(size=8); n=c.int('n',0); kind=KD[k]; b=Buf('X',ESZ[kind],kind,n,init_content('X',sort_of(kind)),0); b.external=True; c.st.mem['X']=b
        for st,_ in c.run('vec_wrap_'+k,[o,n,Ptr('X',0)]):
            must(c,st.mem['out'].abs[0].buf=='X' and st.mem['X'].owners==1,'refers to the external elements'); must(c,st.mem['X'].content is b.content,'external elements unchanged'); must(c,st.mem['X'].external and not st.mem['X'].freed,'external elements stay external')
    # ---- parts
    @spec(prop,k=KT,mode=MODES,f=['tovec','dims','fromvec','as'])
    def parts(c,k,mode,f):
        o=c.out()
        if f in('tovec','dims'):
            x=ten(c,'X',k,mode)
            for st,_ in c.run('ten_%s_%s'%(f,k),[o,x.ptr]):
                R=c.vview(st,o); R.len_is(x.n if f=='tovec' else x.r); R.elems([x.n if f=='tovec' else x.r],lambda q:q,lambda cc,q:x.at(q,cc) if f=='tovec' else x.d(q)); same(c,st,x.ptr,x,'contents of the source'); done(c,st)
        elif f=='fromvec':
            v=vec(c,'V',k,mode)
            for st,_ in c.run('ten_fromvec_'+k,[o,v.ptr]):
                R=c.tview(st,o); R.shape([v.n]); R.elems([v.n],lambda q:q,lambda cc,q:v.at(q,cc)); same(c,st,v.ptr,v,'contents of the source'); done(c,st)
        else:
            d=c.vector('D','l',nonneg=True,mode='own'); setmode(c,d,mode); x=ten(c,'X',k,mode); c.assume(EQ(Prod('D',0,d.n),x.n),GE(d.n,1))
            for st,_ in c.run('ten_as_'+k,[o,d.ptr,x.ptr]):
                R=c.tview(st,o); R.rank_is(d.n); R.data.len_is(x.n); q=fresh('q'); R.dim(q,d.at(q),[GE(q,0),LT(q,d.n)]); R.elems([x.n],lambda q:q,lambda cc,q:x.at(q,cc)); same(c,st,x.ptr,x,'contents of the source'); done(c,st)
    @spec(prop,mode=MODES)
    def indices_from_vector(c,mode):
        v=vec(c,'V','l',mode); o=c.out(size=8)
        for st,_ in c.run('ix_fromvec',[o,v.ptr]): same(c,st,o,v); same(c,st,v.ptr,v,'contents of the source'); done(c,st)
    # ---- writes
    @spec(prop,tkf=['vec_%s_%s'%(k,f) for k in K for f in('at','begin','end')]+['ten_%s_%s'%(k,f) for k in KT for f in('at','begin','end','atseq')],mode=MODES)
    def write_one(c,tkf,mode):
        t,k,f=tkf.split('_')
        x=mk(c,t,'X',k,mode); i=c.int('i',0); c.assume(LT(i,x.n)); p,e=el(c,k)
        at=x.n-1-i if f=='end' else i
        if t=='ten' and f=='at': c.assume(EQ(x.r,1),EQ(x.d(ZERO),x.n))
        for st,_ in c.run('%s_%s_%s'%(t,f,k),[x.ptr,i,p]):
            R=c.vview(st,x.ptr); R.len_is(x.n); R.elems([x.n],lambda q:q,lambda cc,q:Ite(EQ(q,at),e(cc),x.at(q,cc))); inplace(c,st,x.ptr,x); done(c,st)
            if t=='ten': D=c.vview(st,Ptr('X',8)); D.len_is(x.r); D.elems([x.r],lambda q:q,lambda cc,q:x.d(q))
    @spec(prop,k=KT,mode=MODES,f=['fill','zeros'])
    def write_all(c,k,mode,f):
        x=ten(c,'X',k,mode); p,e=el(c,k)
        for st,_ in c.run('ten_%s_%s'%(f,k),[x.ptr]+([p] if f=='fill' else [])):
            R=c.tview(st,x.ptr); R.rank_is(x.r); R.data.len_is(x.n); R.elems([x.n],lambda q:q,lambda cc,q:e(cc) if f=='fill' else ZERO); inplace(c,st,x.ptr,x); done(c,st)
    def OP(op,a,b):
        if op=='add': return [a[0]+b[0],a[1]+b[1]]
        if op=='sub': return [a[0]-b[0],a[1]-b[1]]
        if op=='mul': return [a[0]*b[0]-a[1]*b[1],a[0]*b[1]+a[1]*b[0]]
        return cdiv(a,b)
    lift=lambda k,f:[f(0),f(8) if k=='z' else ZERO]
    @spec(prop,k=KT,mode=MODES,op=['add','sub','mul','div'],w=['t','s','self','copy'])
    def arithmetic(c,k,mode,op,w):
        x=ten(c,'X',k,mode)
        if w=='s': p,e=el(c,k); b=lambda q:lift(k,e)
        elif w=='t': y=ten(c,'Y',k,mode,x); p=y.ptr; b=lambda q:lift(k,lambda e:y.at(q,e))
        else:
            p=x.ptr; b=lambda q:lift(k,lambda e:x.at(q,e))
            if w=='copy':
                y=c.st.mem['X'].copy(); y.id='Y'; c.st.mem['Y']=y; p=Ptr('Y',0)
                for r in y.abs.values(): c.st.w(r.buf).owners+=1
        for st,_ in c.run('ten_%s%s_%s'%(op,'s' if w=='s' else 't',k),[x.ptr,p]):
            R=c.tview(st,x.ptr); R.rank_is(x.r); R.data.len_is(x.n); R.elems([x.n],lambda q:q,lambda cc,q:OP(op,lift(k,lambda e:x.at(q,e)),b(q))[cc//8]); done(c,st)
            if w=='t': same(c,st,p,y,'contents of the operand')
            if w=='copy': same(c,st,p,x,'contents of the operand')
    @spec(prop,tk=['vec_'+k for k in K],mode=MODES)
    def resize(c,tk,mode):
        t,k=tk.split('_'); x=mk(c,t,'X',k,mode); n=c.int('n',0)
        for st,_ in c.run('vec_resize_'+k,[x.ptr,n]): c.vview(st,x.ptr).len_is(n); own(c,st,x.ptr); done(c,st)
    @spec(prop,k=KT,mode=MODES)
    def reshape(c,k,mode):
        d=c.vector('D','l',nonneg=True,mode='own'); setmode(c,d,mode); x=ten(c,'X',k,mode); c.assume(EQ(Prod('D',0,d.n),x.n),GE(d.n,1))
        for st,_ in c.run('ten_reshape_'+k,[x.ptr,d.ptr]):
            R=c.tview(st,x.ptr); R.rank_is(d.n); R.data.len_is(x.n); q=fresh('q'); R.dim(q,d.at(q),[GE(q,0),LT(q,d.n)]); R.elems([x.n],lambda q:q,lambda cc,q:x.at(q,cc)); done(c,st); same(c,st,d.ptr,d,'contents of the dimensions')
    # ---- reads
    @spec(prop,k=K,mode=MODES)
    def read(c,k,mode):
        x=vec(c,'X',k,mode); i=c.int('i',0); c.assume(LT(i,x.n)); kind=KD[k]
        for st,v in c.run('vec_size_'+k,[x.ptr]): c.prove_eq(st,v,x.n,'length'); done(c,st)
    # ---- sparse matrices: dimensions, row starts, columns, data (elements and its dimensions)
    PARTS=[(0,'d','l'),(8,'rs','l'),(16,'col','l'),(24,'data',None),(32,'dd','l')]
    def sp(c,name,k,mode):
        o=Cells(name,40,'param'); c.st.mem[name]=o; v=[]
        for off,nm,kk in PARTS:
            q=vec(c,name+'.'+nm,kk or k,mode); o.abs[off]=c.st.mem[q.ptr.obj].abs[0]; del c.st.mem[q.ptr.obj]; v.append((off,q))
        x=type('S',(),{})(); x.v=v; x.ptr=Ptr(name,0); x.mode=mode; return x
    def same_sp(c,st,p,x,name='contents'):
        for off,q in x.v: same(c,st,Ptr(p.obj,off),q,name)
    @spec(prop,k=KT,mode=MODES)
    def sparse_copy(c,k,mode):
        x=sp(c,'X',k,mode); o=c.out(size=40)
        for st,_ in c.run('sp_copy_'+k,[o,x.ptr]): same_sp(c,st,o,x,'contents of the copy'); same_sp(c,st,x.ptr,x,'contents of the source'); done(c,st)
    @spec(prop,k=KT,mode=['own','shared'],mode2=['own','shared'])
    def sparse_assign(c,k,mode,mode2):
        x=sp(c,'X',k,mode); v=sp(c,'V',k,mode2)
        for st,_ in c.run('sp_assign_'+k,[x.ptr,v.ptr]): same_sp(c,st,x.ptr,v,'contents of the target'); same_sp(c,st,v.ptr,v,'contents of the source'); done(c,st)
    @spec(prop,k=KT,mode=MODES)
    def sparse_assign_self(c,k,mode):
        x=sp(c,'X',k,mode)
        for st,_ in c.run('sp_assign_'+k,[x.ptr,x.ptr]): same_sp(c,st,x.ptr,x); done(c,st)
    @spec(prop,k=KT,mode=MODES)
    def sparse_destroy(c,k,mode):
        x=sp(c,'X',k,mode)
        for st,_ in c.run('sp_dtor_'+k,[x.ptr]): must(c,not st.mem['X'].abs,'lets its storage go'); done(c,st)
