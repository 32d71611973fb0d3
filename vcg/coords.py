"""Call-site contracts of sparse_rows() and of the construction of a sparse matrix from coordinates.  Both are proved against the
code (specs/c20.py rows, specs/c17.py coordinates); callers are checked against them."""
from sparsespec import *
import re
def parts(st,p): o=st.mem[p.obj]; d=int(p.off.const()); return o,d
def vec(ex,st,p): r=parts(st,p); b=st.mem[r[0].abs[r[1]].buf]; return b,(lambda i,c=0,f=None: read_content(ex,f or st.facts,b.content,P(i),c))
def rows_of(S):
    """sparse_rows(row offsets of S, columns of S): the row of every stored value"""
    rho=lambda q: App('row_of',P(q),sort='I')
    def prim(ex,st,a,name):
        out,rs,co=a; b,at=vec(ex,st,rs); q=fresh('q'); f=st.facts.add(GE(q,0),LE(q,S.R)); bc,_=vec(ex,st,co)
        ex.require(st,And(EQ(b.n,S.R+1),EQ(bc.n,S.N)),'row offsets and columns of the matrix')
        ok=prove(f,EQ(read_content(ex,f,b.content,q,0),S.rs(q))); ex.log('row offsets of the matrix',ok)
        if not ok: raise Failed('row offsets of the matrix')
        st.facts.axioms['ax:row_of']=lambda t:[Implies(And(GE(t.args[1],0),LT(t.args[1],S.N)),And(GE(t.poly,0),LT(t.poly,S.R),LE(S.rs(t.poly),t.args[1]),LT(t.args[1],S.rs(t.poly+1))))]
        n=newid('rows'); st.mem[n]=Buf(n,8,'long',S.N,lam_content(lambda i,c: rho(i)),1); o=st.w(out.obj); o.abs[int(out.off.const())]=AbsRef(n); return None
    return (r'tensor::sparse_rows\(.*\)',prim),rho
def place(st,out,k,u,nr,nc,m,rs,co,da):
    """a matrix of its own storage at out"""
    o=st.w(out.obj); b=int(out.off.const())
    for off,kind,n,f in((0,'long',P(2),lambda i,cc: Ite(EQ(i,0),nr,nc)),(8,'long',nr+1,rs),(16,'long',m,co),(24,KD[k],m,da),(32,'long',ONE,lambda i,cc: m)):
        n_=newid(u); st.mem[n_]=Buf(n_,ESZ[kind],kind,n,lam_content(f),1); o.abs[b+off]=AbsRef(n_); o.cells.pop(b+off,None)
    return o.abs[b+24].buf
def coordinates(k):
    """a matrix from (row, column, value) triplets"""
    made=[]
    def prim(ex,st,a,name):
        out,rows,cols,data,nr,nc=a; br,r=vec(ex,st,rows); bc,c=vec(ex,st,cols); bd,d=vec(ex,st,data); l=br.n; q=fresh('q')
        ex.require(st,And(EQ(bc.n,l),EQ(bd.n,l)),'as many rows as columns and values'); ex.require(st,And(GE(nr,0),GE(nc,0)),'size is not negative')
        f=st.facts.add(GE(q,0),LT(q,l)); g=And(GE(r(q,0,f),0),LT(r(q,0,f),nr),GE(c(q,0,f),0),LT(c(q,0,f),nc)); ok=prove(f,g); ex.log('coordinates lie in the matrix',ok)
        if not ok: raise Failed('coordinates lie in the matrix',show_bool(g)[:400])
        u=newid('sp'); m=fresh('m'); comps=comps_of(KD[k]); rs=lambda i: Sel(u+'.rs',P(i),0,'I'); co=lambda i: Sel(u+'.co',P(i),0,'I'); da=lambda i,cc=0: Sel(u+'.da',P(i),cc,'R')
        st.assume(GE(m,0),EQ(rs(0),0),EQ(rs(nr),m))
        st.facts.axioms[u+'.rs']=lambda t:[Implies(And(GE(t.args[1],0),LE(t.args[1],nr)),And(GE(t.poly,0),LE(t.poly,m)))]
        st.facts.axioms[u+'.co']=lambda t:[Implies(And(GE(t.args[1],0),LT(t.args[1],m)),And(GE(t.poly,0),LT(t.poly,nc)))]
        place(st,out,k,u,nr,nc,m,lambda i,cc: rs(i),lambda i,cc: co(i),da)
        src=lambda q: App(u+'.src',P(q),sort='I'); dst=lambda t: App(u+'.dst',P(t),sort='I')
        class X: pass
        x=X(); x.rs,x.co,x.da,x.m,x.nr,x.nc,x.src,x.dst=rs,co,da,m,nr,nc,src,dst; x.rows,x.cols,x.data,x.l=r,c,d,l
        nz=lambda t,f: Or(*[NE(d(t,cc,f),0) for cc in comps])
        # instances of the postcondition
        x.in_order=lambda i: Implies(And(GE(i,0),LT(i,nr)),LE(rs(i),rs(i+1)))
        x.columns=lambda i,q: Implies(And(GE(i,0),LT(i,nr),GE(q,rs(i)),LT(q+1,rs(i+1))),LT(co(q),co(q+1)))
        def stored(i,q):
            h=And(GE(i,0),LT(i,nr),GE(q,rs(i)),LT(q,rs(i+1))); t=src(q); b=And(GE(t,0),LT(t,l)); f=st.facts.add(h,b)
            return Implies(h,And(b,nz(t,f),EQ(r(t,0,f),i),EQ(c(t,0,f),co(q)),*[EQ(d(t,cc,f),da(q,cc)) for cc in comps]))
        def present(t):
            h=And(GE(t,0),LT(t,l)); f=st.facts.add(h); w=dst(t); return Implies(And(h,nz(t,f)),And(LE(rs(r(t,0,f)),w),LT(w,rs(r(t,0,f)+1)),EQ(co(w),c(t,0,f))))
        x.stored,x.present=stored,present
        made.append(x); return None
    return (r'tensor::Sparse<%s ?>::Sparse\(tensor::(?:Indices|Vector<long>) const&, tensor::(?:Indices|Vector<long>) const&, tensor::Tensor<%s ?> const&, long, long\)'%(((r'double',r'std::complex<double>')[k=='z'],)*2),prim),made
