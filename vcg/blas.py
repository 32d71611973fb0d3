"""Trusted contracts of external routines: BLAS, LAPACK, streams."""
from terms import *
from symexec import *
import refs
def scal(ex,st,v,cplx):
    """scalar argument: value or pointer to complex"""
    if isinstance(v,Ptr):
        o=st.mem[v.obj]; k=v.off.const()
        if isinstance(o,Buf): 
            i,c=ex.buf_index(o,v.off,0); return [ex.read(st,o,i,cc) for cc in comps_of(o.kind)]
        return [o.cells[k][1],o.cells[k+8][1]] if cplx else [o.cells[k][1]]
    return [v,ZERO] if cplx else [v]
def cmul(a,b):
    if len(a)==1: return [a[0]*b[0]]
    return [a[0]*b[0]-a[1]*b[1],a[0]*b[1]+a[1]*b[0]]
def element_base(ex,st,p,esz):
    o=st.mem[p.obj]
    if not isinstance(o,Buf): raise Unsupported('matrix argument outside a buffer')
    i,c=ex.buf_index(o,p.off,0)
    if c or o.esz!=esz: raise Unsupported('matrix argument element type')
    if o.freed: raise Failed('matrix argument storage is alive')
    return o,i
def gemm(ex,st,a,cplx):
    order,ta,tb,m,n,k,alpha,A,lda,B,ldb,beta,C,ldc=a
    if order.const()!=102: raise Unsupported('row-major product')
    ta=opcode(ex,st,ta); tb=opcode(ex,st,tb)
    esz=16 if cplx else 8
    al=scal(ex,st,alpha,cplx); be=scal(ex,st,beta,cplx)
    for x,nm in((m,'m'),(n,'n'),(k,'k')): ex.require(st,GE(x,0),'gemm: %s is non-negative'%nm)
    ar=m if ta==111 else k; ac=k if ta==111 else m
    br=k if tb==111 else n; bc=n if tb==111 else k
    for ld,r,nm in((lda,ar,'a'),(ldb,br,'b'),(ldc,m,'c')):
        ex.require(st,And(GE(ld,1),GE(ld,r)),'gemm: leading dimension of %s'%nm)
    if prove(st.facts,Or(EQ(m,0),EQ(n,0))): return
    bo,bi=element_base(ex,st,B,esz); ao,ai=element_base(ex,st,A,esz); co,ci=element_base(ex,st,C,esz)
    for o,i,ld,r,c,nm in((ao,ai,lda,ar,ac,'a'),(bo,bi,ldb,br,bc,'b'),(co,ci,ldc,m,n,'c')):
        ex.require(st,Implies(And(GE(r,1),GE(c,1),GE(m,1),GE(n,1)),And(GE(i,0),LE(i+ld*(c-1)+r,o.n))),'gemm: matrix %s inside its buffer'%nm)
    if C.obj in(A.obj,B.obj): raise Failed('gemm: output does not overlap its input')
    i=fresh('i'); j=fresh('j'); p=fresh('p')
    f=st.facts.add(GE(i,0),LT(i,m),GE(j,0),LT(j,n),GE(p,0),LT(p,k))
    for o,b0,ld,r,cn,v in((ao,ai,lda,ar,ac,p if ta==111 else i),(bo,bi,ldb,br,bc,j if tb==111 else p)):
        f=f.add(GE(b0,0),LE(b0+ld*(cn-1)+r,o.n),GE(ld*v,0),LE(ld*v,ld*(cn-1)))
    def elem(o,base,ld,t,x,y):
        ii=base+x+ld*y if t==111 else base+y+ld*x
        v=[read_content(ex,f,o.content,ii,c) for c in comps_of(o.kind)]
        if t==113 and cplx: v[1]=-v[1]
        return v
    pr=cmul(elem(ao,ai,lda,ta,i,p),elem(bo,bi,ldb,tb,p,j))
    s=[MSum([(the_atom(p),k)],x) for x in pr]
    s=cmul(al,s)
    w=st.w(C.obj); ex.check_writable(st,w); ii=ci+i+ldc*j
    if any(b!=ZERO for b in be):
        old=cmul(be,[read_content(ex,f,w.content,ii,c) for c in comps_of(w.kind)])
        s=[x+y for x,y in zip(s,old)]
    for c,x in zip(comps_of(w.kind),s):
        w.content=Content(w.content,Eff('store',[(the_atom(j),n),(the_atom(i),m)],TRUE,ii,c,x))
    ex.trusted.add('cblas_%sgemm'%('z' if cplx else 'd'))
def opcode(ex,st,t):
    if not t.is_const():
        for v in(111,112,113):
            if prove(st.facts,EQ(t,v)): return v
        raise Unsupported('transposition flag')
    return t.const()
def p_stream(ex,st,a,name): return a[0]
PRIMS_BLAS=[
 (r'cblas_dgemm',lambda ex,st,a,n: gemm(ex,st,a,False)),
 (r'cblas_zgemm',lambda ex,st,a,n: gemm(ex,st,a,True)),
]
PRIMS_IO=[
 (r'std::ostream::operator<<.*|std::basic_ostream<.*>& std::operator<<.*|std::ostream& tensor::operator<<.*|std::ostream& std::operator<<.*|std::ostream::.*|std::operator<<.*|std::basic_ostream<.*> ?& std::endl.*|std::ostream& operator<<.*|.*std::ostream& tensor::.*operator<<.*|tensor::operator<<\(std::ostream&.*',p_stream),
]
