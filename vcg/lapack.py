"""Trusted contracts of the LAPACK routines.  A call checks the documented requirements on its arguments (sizes, leading
dimensions, workspace), records what it was given, and gives its outputs new contents; the specification relates the record
(ghost object in memory) to the arguments and the results of the library function.  Matrices are passed from the first
element of a buffer and fill it."""
from terms import *
from symexec import *
class Lap(Cells):
    __slots__=('d',)
    def copy(s): c=Lap(s.id,s.size,s.kind); c.d=dict(s.d); return c
N=[0]
def ival(ex,st,p):
    o=st.mem[p.obj]
    if isinstance(o,Buf): i,c=ex.buf_index(o,p.off,0); return ex.read(st,o,i,c)
    return o.cells[p.off.const()][1]
def setval(ex,st,p,v,esz=8):
    o=st.w(p.obj)
    if isinstance(o,Buf): i,c=ex.buf_index(o,p.off,0); ex.check_writable(st,o); o.content=Content(o.content,Eff('store',(),TRUE,i,c,v)); return
    k=p.off.const(); sz=o.cells[k][0] if k in o.cells else esz; o.cells[k]=(sz,v)
def flag(ex,st,p):
    o=st.mem[p.obj]; k=p.off.const()
    v=o.cells[k][1]
    if not v.is_const():
        for x in map(ord,'NVASUL'):
            if prove(st.facts,EQ(v,x)): return chr(x)
        raise Unsupported('LAPACK option')
    return chr(int(v.const()))
def matrix(ex,st,p,n,what,write=True):
    o=st.mem.get(p.obj)
    if not isinstance(o,Buf): raise Unsupported(what+' outside a buffer')
    if o.freed: raise Failed(what+' is alive')
    if o.raw: ex.buf_index(o,ZERO,8)
    ex.require(st,EQ(p.off,0),what+' is passed from its first element'); ex.require(st,GE(o.n,n),what+' has room')
    return p.obj
def output(ex,st,oid,sym,dep=True):
    w=st.w(oid); ex.check_writable(st,w); w.content=init_content(sym,'R'); return oid
def record(st,**d):
    N[0]+=1; oid=newid('lapack'); o=st.mem[oid]=Lap(oid,8,'lapack'); d['name']='lapack!%d'%N[0]; o.d=d; return d['name']
def ld(ex,st,l,r,nm): ex.require(st,And(GE(l,1),GE(l,r)),'leading dimension of '+nm)
def distinct(*oids):
    l=[x for x in oids if x is not None]
    if len(set(l))!=len(l): raise Failed('LAPACK arguments do not overlap')
def info(ex,st,p): 
    w=getattr(ex,'lapack_info',0); v=fresh('info')
    st.facts=st.facts.add(EQ(v,0) if w==0 else NE(v,0)); setval(ex,st,p,v if w else ZERO,4)
def query(ex,st,work,need,cplx):
    v=fresh('lwork'); st.facts=st.facts.add(GE(v,need),GE(v,1)); setval(ex,st,work,v)
    if cplx: setval(ex,st,Ptr(work.obj,work.off+8),ZERO)
def workspace(ex,st,p,n,what,cplx=False):
    o=st.mem.get(p.obj)
    if not isinstance(o,Buf): raise Unsupported(what+' outside a buffer')
    if o.raw: ex.buf_index(o,ZERO,16 if cplx else 8)
    ex.require(st,And(EQ(p.off,0),GE(o.n,n)),what+' has room')
    output(ex,st,p.obj,'work!%d'%next(CT))
import itertools
CT=itertools.count(1)
def gesv(ex,st,a,z):
    n,nrhs,lda,ldb=[ival(ex,st,a[i]) for i in(0,1,3,6)]
    ex.require(st,And(GE(n,0),GE(nrhs,0)),'sizes are non-negative'); ld(ex,st,lda,n,'the matrix'); ld(ex,st,ldb,n,'the right hand side')
    A=matrix(ex,st,a[2],lda*n,'the matrix'); B=matrix(ex,st,a[5],ldb*nrhs,'the right hand side'); distinct(A,B)
    ip=st.mem[a[4].obj]
    if isinstance(ip,Buf) and ip.raw: ex.buf_index(ip,ZERO,4)
    if not isinstance(ip,Buf): raise Unsupported('pivots outside a buffer')
    ex.require(st,And(EQ(a[4].off,0),GE(ip.n,n)),'room for the pivots')
    k=record(st,fn='gesv',n=n,nrhs=nrhs,lda=lda,ldb=ldb,A=st.mem[A].content,B=st.mem[B].content,X=B)
    output(ex,st,A,'lu:'+k); output(ex,st,B,'x:'+k); st.w(a[4].obj).content=init_content('piv:'+k,'I'); info(ex,st,a[7]); return ZERO
def gesvd(ex,st,a,z):
    ju,jv=flag(ex,st,a[0]),flag(ex,st,a[1]); m,n,lda,ldu,ldv,lw=[ival(ex,st,a[i]) for i in(2,3,5,8,10,12)]; k=Ite(LE(m,n),m,n)
    need=Ite(LE(m,n),2*m+n,2*n+m) if z else Ite(LE(m,n),Ite(LE(3*m+n,5*m),5*m,3*m+n),Ite(LE(3*n+m,5*n),5*n,3*n+m))
    ex.require(st,And(GE(m,0),GE(n,0)),'sizes are non-negative'); ld(ex,st,lda,m,'the matrix'); ld(ex,st,ldu,m if ju in 'SA' else 1,'the left vectors'); ld(ex,st,ldv,n if jv=='A' else k if jv=='S' else 1,'the right vectors')
    if lw.is_const() and lw.const()==-1:
        setval(ex,st,a[11],ZERO) if False else None; query(ex,st,a[11],need,z); info(ex,st,a[14] if z else a[13]); return ZERO
    A=matrix(ex,st,a[4],lda*n,'the matrix'); S=matrix(ex,st,a[6],k,'the singular values')
    U=matrix(ex,st,a[7],ldu*(m if ju=='A' else k),'the left vectors') if ju in 'SA' else None; V=matrix(ex,st,a[9],ldv*n,'the right vectors') if jv in 'SA' else None
    distinct(A,S,U,V); ex.require(st,GE(lw,need),'workspace is as large as documented'); workspace(ex,st,a[11],lw,'workspace',z)
    if z: workspace(ex,st,a[13],5*k,'real workspace')
    nm=record(st,fn='gesvd',ju=ju,jv=jv,m=m,n=n,lda=lda,ldu=ldu,ldv=ldv,A=st.mem[A].content,S=S,U=U,V=V)
    output(ex,st,A,'lost:'+nm); output(ex,st,S,'s:'+nm)
    if U: output(ex,st,U,'u:'+nm)
    if V: output(ex,st,V,'v:'+nm)
    info(ex,st,a[14] if z else a[13]); return ZERO
def syev(ex,st,a,z):
    jz,up=flag(ex,st,a[0]),flag(ex,st,a[1]); n,lda,lw=[ival(ex,st,a[i]) for i in(2,4,7)]; need=2*n-1 if z else 3*n-1
    ex.require(st,GE(n,0),'sizes are non-negative'); ld(ex,st,lda,n,'the matrix')
    if lw.is_const() and lw.const()==-1: query(ex,st,a[6],Ite(GE(need,1),need,1),z); info(ex,st,a[9] if z else a[8]); return ZERO
    A=matrix(ex,st,a[3],lda*n,'the matrix'); W=matrix(ex,st,a[5],n,'the eigenvalues'); distinct(A,W)
    ex.require(st,And(GE(lw,1),GE(lw,need)),'workspace is as large as documented'); workspace(ex,st,a[6],lw,'workspace',z)
    if z: workspace(ex,st,a[8],3*n-2,'real workspace')
    nm=record(st,fn='syev',jz=jz,up=up,n=n,lda=lda,A=st.mem[A].content,V=A,W=W)
    output(ex,st,A,('v:' if jz=='V' else 'lost:')+nm); output(ex,st,W,'w:'+nm); info(ex,st,a[9] if z else a[8]); return ZERO
def geev(ex,st,a,z):
    jl,jr=flag(ex,st,a[0]),flag(ex,st,a[1]); o=0 if z else 1
    n,lda,ldl,ldr,lw=[ival(ex,st,a[i]) for i in(2,4,7+o,9+o,11+o)]; vl,vr,work=a[6+o],a[8+o],a[10+o]; need=2*n if z else Ite(GE(n,0),4*n if 'V' in(jl,jr) else 3*n,1)
    inf=a[13]
    ex.require(st,GE(n,0),'sizes are non-negative'); ld(ex,st,lda,n,'the matrix'); ld(ex,st,ldl,n if jl=='V' else 1,'left vectors'); ld(ex,st,ldr,n if jr=='V' else 1,'right vectors')
    if lw.is_const() and lw.const()==-1: query(ex,st,work,need,z); info(ex,st,inf); return ZERO
    A=matrix(ex,st,a[3],lda*n,'the matrix'); W=matrix(ex,st,a[5],n,'the eigenvalues'); WI=None if z else matrix(ex,st,a[6],n,'imaginary parts')
    L=matrix(ex,st,vl,ldl*n,'left vectors') if jl=='V' else None; R=matrix(ex,st,vr,ldr*n,'right vectors') if jr=='V' else None
    distinct(A,W,WI,L,R); ex.require(st,And(GE(lw,1),GE(lw,need)),'workspace is as large as documented'); workspace(ex,st,work,lw,'workspace',z)
    if z: workspace(ex,st,a[12],2*n,'real workspace')
    nm=record(st,fn='geev',jl=jl,jr=jr,n=n,lda=lda,ldl=ldl,ldr=ldr,A=st.mem[A].content,W=W,WI=WI,L=L,R=R)
    output(ex,st,A,'lost:'+nm); output(ex,st,W,'w:'+nm)
    if WI: output(ex,st,WI,'wi:'+nm)
    if L: output(ex,st,L,'l:'+nm)
    if R: output(ex,st,R,'r:'+nm)
    info(ex,st,inf); return ZERO
def P_(rx,f,z): return (rx,lambda ex,st,a,n: (ex.trusted.add(rx),f(ex,st,a,z))[1])
PRIMS_LAPACK=[P_(r'dgesv_',gesv,0),P_(r'zgesv_',gesv,1),P_(r'dgesvd_',gesvd,0),P_(r'zgesvd_',gesvd,1),P_(r'dsyev_',syev,0),P_(r'zheev_',syev,1),P_(r'dgeev_',geev,0),P_(r'zgeev_',geev,1)]
