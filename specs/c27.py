from spec import *
from refs import ref_at
TUS=['@c27','fftw/fftw.cc','fftw/fftw_common.cc','fftw/fftw_inplace.cc','fftw/fftshift.cc','tensor/tensor_z.cc']
# ---------------------------------------------------------------- contract of the FFTW library (trusted)
# A plan records what it transforms; executing it gives the buffer the unnormalised transform over the dimensions
# of the plan's description, for the direction given.  Only FFTW_ESTIMATE (64) leaves the arrays alone while planning.
def buf(ex,st,p,what):
    if p.obj is None or not isinstance(st.mem.get(p.obj),Buf): raise Unsupported(what)
    b=st.mem[p.obj]; ex.require(st,EQ(p.off,0),what+' is passed from its first element')
    if b.freed: raise Failed(what+' is alive')
    return b
class Plan(Cells):
    __slots__=('d',)
    def copy(s): c=Plan(s.id,s.size,s.kind); c.freed=s.freed; c.d=dict(s.d); return c
PLANS=[0]
def plan(ex,st,d,pin,pout,sign,flags):
    ex.require(st,EQ(flags,64),'planning does not touch the data')
    d.update(i=buf(ex,st,pin,'transformed data').id,o=buf(ex,st,pout,'result').id,sign=sign)
    PLANS[0]+=1; d['name']='plan!%d'%PLANS[0]
    oid=newid('plan'); o=st.mem[oid]=Plan(oid,8,'plan'); d['plan']=oid; o.d=d; return Ptr(oid,0)
def all_dims(ex,st,rank,content,comp,n,at=None):
    pass
def p_1d(ex,st,a,name):
    ex.require(st,GT(a[0],0),'transform of at least one element'); return plan(ex,st,dict(kind='1d',n=a[0]),*a[1:5])
def p_nd(ex,st,a,name):
    b=st.mem[a[1].obj]; ex.require(st,And(EQ(a[1].off,0),LE(a[0],b.n),GE(a[0],1)),'as many dimensions as the rank says')
    return plan(ex,st,dict(kind='nd',rank=a[0],dims=b.content),*a[2:6])
def p_guru(ex,st,a,name):
    def arr(p,n):
        if isinstance(st.mem.get(p.obj),Buf):
            b=st.mem[p.obj]; ex.require(st,And(EQ(p.off,0),LE(n,b.n),GE(n,0)),'as many dimensions as the rank says'); return lambda f,i,fld: read_content(ex,f,b.content,P(i),4*fld)
        o=st.mem[p.obj]; ex.require(st,And(GE(n,0),LE(n,1)),'as many dimensions as the rank says'); cells=dict(o.cells); return lambda f,i,fld: cells[p.off.const()+4*fld][1]
    return plan(ex,st,dict(kind='guru',rank=a[0],fft=arr(a[1],a[0]),loops=a[2],loop=arr(a[3],a[2])),*a[4:8])
def find(st,p):
    o=st.mem.get(p.obj)
    if isinstance(o,Plan): return o.d['name'],o.d
    raise Failed('the plan was made by the library')
def p_exec(ex,st,a,name):
    k,d=find(st,a[0])
    if st.mem[a[0].obj].freed: raise Failed('plan is alive')
    b=st.w(d['o']); ex.check_writable(st,b)
    if d.get('done'): raise Unsupported('plan executed twice')
    d=st.w(a[0].obj).d; d['before']=st.mem[d['i']].content; d['done']=True
    b.content=init_content('dft:'+k,'R')
def p_destroy(ex,st,a,name):
    find(st,a[0])
    if st.mem[a[0].obj].freed: raise Failed('plan destroyed once')
    st.w(a[0].obj).freed=True
FFT=[('fftw_plan_dft_1d',p_1d),('fftw_plan_dft',p_nd),('fftw_plan_guru_dft',p_guru),('fftw_execute',p_exec),('fftw_destroy_plan',p_destroy)]
def done(c,st,A,src,dst,sign):
    ks=[(o.d['name'],o.d) for o in st.mem.values() if isinstance(o,Plan) and o.d.get('done')]
    ok=len(ks)==1; c.ex.log('exactly one transform is executed',ok)
    if not ok: raise Failed('exactly one transform is executed',str(len(ks)))
    k,d=ks[0]
    def must(x,n):
        c.ex.log(n,bool(x))
        if not x: raise Failed(n)
    must(st.mem[d['plan']].freed,'plan is released'); must(d['o']==dst.buf.id,'the result is the transformed data')
    must(d['before'].base==('init','A','R') and d['before'].parent is None,'the data of the source is transformed'); must(dst.buf.content.parent is None and dst.buf.content.base==('init','dft:'+k,'R'),'the result is not changed afterwards')
    c.prove_eq(st,d['sign'],sign,'direction'); return d
def empty(st,A): return prove(st.facts,EQ(A.n,0))
def expect_one(c,st,A,d,k):
    i=fresh('i')
    if d['kind'] in('1d','nd'): raise Unsupported('one dimension transformed by a plan over all')
    c.prove_eq(st,d['rank'],1,'one dimension is transformed'); c.prove_eq(st,d['loops'],A.r-1,'the other dimensions are kept')
    f=st.facts
    for fld,v,n in((0,A.d(k),'length'),(1,A.P(0,k),'stride'),(2,A.P(0,k),'stride of the result')): c.prove(st,EQ(d['fft'](f,0,fld),v),'transformed dimension: '+n)
    for lo,hi,sh in((ZERO,k,0),(k+1,A.r,1)):
        g=f.add(GE(i,lo),LT(i,hi))
        if not feasible(g): continue
        for fld,v,n in((0,A.d(i),'length'),(1,A.P(0,i),'stride'),(2,A.P(0,i),'stride of the result')): c.prove(st,EQ(d['loop'](g,i-sh,fld),v),'kept dimension: '+n,g)
def expect_all(c,st,A,d):
    i=fresh('i'); f=st.facts.add(GE(i,0),LT(i,A.r))
    if d['kind']=='1d': c.prove(st,EQ(A.r,1),'a single dimension'); c.prove(st,EQ(d['n'],A.n),'length of the transform')
    elif d['kind']=='nd':
        c.prove_eq(st,d['rank'],A.r,'all dimensions are transformed'); c.prove(st,EQ(read_content(c.ex,f,d['dims'],A.r-1-i,0),A.d(i)),'dimensions, last one first',f)
    else:
        c.prove_eq(st,d['rank'],A.r,'all dimensions are transformed'); c.prove_eq(st,d['loops'],0,'no dimension is kept'); raise Unsupported('description')
def same_dims(c,R,A): R.rank_is(A.r); R.data.len_is(A.n); q=fresh('q'); R.dim(q,A.d(q),[GE(q,0),LT(q,A.r)])
@spec('C27',w=['all','one'],mode=['out','own','shared'],rank=['1','any'])
def transform(c,w,mode,rank):
    A=c.tensor('A','z',r={'1':ONE}.get(rank),mode='in' if mode=='out' else mode); s=c.int('s'); c.assume(Or(EQ(s,-1),EQ(s,1)),GT(A.n,0))
    k=c.int('k',0); c.assume(LT(k,A.r)); extra=[k] if w=='one' else []
    o=c.out()
    for st,_ in (c.run('fft_'+w,[o,A.ptr]+extra+[s]) if mode=='out' else c.run('fftin_'+w,[A.ptr]+extra+[s])):
        R=c.tview(st,o if mode=='out' else A.ptr); same_dims(c,R,A); R.data.fresh()
        d=done(c,st,A,A.ptr,R.data,s)
        if w=='all': expect_all(c,st,A,d)
        else: expect_one(c,st,A,d,k)
transform.prims=FFT
@spec('C27',w=['all','one','some'],mode=['out','in'])
def empty_transform(c,w,mode):
    A=c.tensor('A','z',mode='in' if mode=='out' else 'own'); s=c.int('s'); c.assume(EQ(A.n,0)); k=c.int('k',0); c.assume(LT(k,A.r)); o=c.out()
    extra={'all':[],'one':[k]}.get(w)
    if extra is None: B=c.vector('B','b',A.r); extra=[B.ptr]
    for st,_ in (c.run('fft_'+w,[o,A.ptr]+extra+[s]) if mode=='out' else c.run('fftin_'+w,[A.ptr]+extra+[s])): same_dims(c,c.tview(st,o if mode=='out' else A.ptr),A)
empty_transform.prims=FFT
@spec('C27',f=['fft_one','fftin_one','shift_one','fft_some','fftin_some','shift_some'])
def unsuitable(c,f):
    A=c.tensor('A','z',mode='own' if 'in_' in f else 'in'); s=c.int('s'); k=c.int('k')
    if f.endswith('one'): c.assume(Or(LT(k,0),GE(k,A.r))); x=k
    else: B=c.vector('B','b'); c.assume(NE(B.n,A.r)); x=B.ptr
    c.run(f,([] if 'in_' in f else [c.out()])+[A.ptr,x,s],expect='abort')
unsuitable.prims=FFT

@spec('C27',mode=['out','own','shared'])
def marked(c,mode):
    A=c.tensor('A','z',mode='in' if mode=='out' else mode); s=c.int('s'); c.assume(Or(EQ(s,-1),EQ(s,1)),GT(A.n,0)); B=c.vector('B','b',A.r); o=c.out()
    for st,_ in (c.run('fft_some',[o,A.ptr,B.ptr,s]) if mode=='out' else c.run('fftin_some',[A.ptr,B.ptr,s])):
        R=c.tview(st,o if mode=='out' else A.ptr); same_dims(c,R,A); R.data.fresh()
        d=done(c,st,A,A.ptr,R.data,s); f=st.facts
        i=fresh('i'); m=B.at(i); f=f.add(GE(i,0),LT(i,A.r))
        one=lambda v:Ite(NE(B.at(v),0),ONE,ZERO); v=fresh('v')
        cnt=Sum(v,i,one(v)); tot=Sum(v,A.r,one(v))
        c.prove_eq(st,d['rank'],tot,'number of transformed dimensions'); c.prove_eq(st,d['loops'],A.r-tot,'number of kept dimensions')
        for mark,part,pos,n in((NE(m,0),'fft',cnt,'transformed'),(EQ(m,0),'loop',i-cnt,'kept')):
            g=f.add(mark)
            for fld,w,l in((0,A.d(i),'length'),(1,A.P(0,i),'stride'),(2,A.P(0,i),'stride of the result')): c.prove(st,EQ(d[part](g,pos,fld),w),n+' dimension: '+l,g)
marked.prims=FFT
# ---------------------------------------------------------------- rotation
import re
from boxes import PRIMS_BOX
@spec('C27',n=['empty','single','even','odd'],s=[-1,1],rank=['1','2','any'])
def shift(c,n,s,rank):
    """element k of the dimension moves to (k + floor(n/2)) mod n going forward and to (k + ceil(n/2)) mod n going back, which undoes it; the rest stays"""
    A=c.tensor('A','z',r={'1':ONE,'2':P(2)}.get(rank)); k=c.int('k',0); c.assume(LT(k,A.r)); h=c.int('h',1); o=c.out(); N=A.d(k)
    c.assume(EQ(N,{'empty':ZERO,'single':ONE,'even':2*h,'odd':2*h+1}[n])); c.ex.prims[0:0]=[(re.compile(p),f) for p,f in PRIMS_BOX]
    up=h if n=='even' or s==-1 else h+1
    for st,_ in c.run('shift_one',[o,A.ptr,k,P(s)]):
        R=c.tview(st,o); same_dims(c,R,A)
        B,F=A.P(0,k),A.P(k+1,A.r)
        if n=='empty': continue
        if n=='single': R.data.elems([A.n],lambda q:q,lambda cc,q:A.at(q,cc),'unchanged'); continue
        R.data.fresh()
        for part,lo,cnt,frm in(('last part',up,N-up,ZERO),('first part',ZERO,up,N-up)):
            R.data.elems([B,cnt,F],lambda b,j,a,lo=lo: b+B*(lo+j)+B*N*a,lambda cc,b,j,a,frm=frm: A.at(b+B*(frm+j)+B*N*a,cc),part+' of the dimension')
@spec('C27',w=['all','some'])
def shift_several(c,w):
    """every dimension (every marked dimension) is rotated exactly once, in the requested direction, by the one-dimension form; rotations of different dimensions commute"""
    from refs import acquire,release
    A=c.tensor('A','z'); s=c.int('s'); o=c.out(); B=c.vector('B','b',A.r) if w=='some' else None; a=c.st.mem['A']; mine=(a.abs[0].buf,a.abs[8].buf)
    c.st.mem['times']=Buf('times',8,'long',A.r,const_content(ZERO),1); c.st.mem['calls']=Cells('calls',8,'ghost'); c.st.mem['calls'].cells[0]=(8,ZERO); VER=1000; c.st.w('A').cells[VER]=(8,ZERO)
    # a tensor carries the number of rotations it went through; the one to be rotated is the one rotated last
    def parts(st,t): m=st.mem[t.obj]; n=int(t.off.const()); return (m.abs[n],m.abs[n+8]),m.cells[n+VER][1]
    def put(st,t,refs,v,old=None):
        for r in refs: acquire(st,r)
        q=st.w(t.obj); n=int(t.off.const()); q.cells[n+VER]=(8,v)
        for i in(0,8):
            if old: release(c.ex,st,old[i//8])
            q.abs[n+i]=refs[i//8]; q.cells.pop(n+i,None)
    def one(ex,st,x,name):
        out,t,k,d=x; refs,v=parts(st,t)
        if tuple(r.buf for r in refs)!=mine: raise Unsupported('the rotated tensor')
        cnt=st.mem['calls'].cells[0][1]; ex.require(st,EQ(v,cnt),'the tensor rotated so far is rotated further'); st.w('calls').cells[0]=(8,cnt+1)
        ex.require(st,And(GE(k,0),LT(k,A.r)),'dimension exists'); ex.require(st,EQ(d,s),'requested direction')
        u=read_content(ex,st.facts,st.mem['times'].content,k,0); b=st.w('times'); b.content=Content(b.content,Eff('store',(),TRUE,P(k),0,u+1))
        put(st,out,refs,v+1)
    def copy(ex,st,x,name): refs,v=parts(st,x[1]); put(st,x[0],refs,v)
    def assign(ex,st,x,name):
        refs,v=parts(st,x[1]); put(st,x[0],refs,v,parts(st,x[0])[0]); return x[0]
    T=r'tensor::Tensor<std::complex<double> ?>'
    c.ex.prims[0:0]=[(re.compile(p),f) for p,f in((r'tensor::fftshift\(%s const&, long, int\)'%T,one),(T+r'::Tensor\(%s const&\)'%T,copy),(T+r'::operator=\(%s const&\)'%T,assign))]
    for st,_ in c.run('shift_'+w,[o,A.ptr]+([B.ptr] if B else [])+[s]):
        r=st.mem[o.obj].abs; ok=tuple(r[i].buf for i in(0,8))==mine; c.ex.log('the rotated tensor is returned',ok)
        if not ok: raise Failed('the rotated tensor is returned')
        c.prove(st,EQ(parts(st,o)[1],st.mem['calls'].cells[0][1]),'the tensor rotated last is returned')
        i=fresh('i'); f=st.facts.add(GE(i,0),LT(i,A.r)); t=read_content(c.ex,f,st.mem['times'].content,i,0)
        c.prove(st,EQ(t,1 if w=='all' else Ite(NE(B.at(i),0),ONE,ZERO)),'each chosen dimension is rotated once',f)
