"""Sparse matrices in contracts.  A sparse matrix is its four parts; the representation invariant W is
   dims=(R,C); |row_start|=R+1; row_start[0]=0, non-decreasing, row_start[R]=|column|=|data|; 0<=column<C,
   strictly increasing within a row.  It is assumed for arguments (assume_W) and shown for results (prove_W)."""
from spec import *
import spec as SP
class SSp:
    def __init__(s,name,k): s.name=name; s.k=k; s.comps=comps_of(KD[k])
    def rs(s,i): return Sel(s.name+'.rs',P(i),0,'I')
    def co(s,i): return Sel(s.name+'.co',P(i),0,'I')
    def at(s,i,c=0): return Sel(s.name+'.da',P(i),c,'R')
def sparse(c,name='S',k='d',mode='in',order=True):
    s=SSp(name,k); s.R=Sel(name+'.d',ZERO,0,'I'); s.C=Sel(name+'.d',ONE,0,'I'); s.N=s.rs(s.R)
    o=Cells(name,40,'param'); st=c.st
    o.abs[0]=c._buf(name+'.dimsv','long',P(2),name+'.d',mode); o.abs[8]=c._buf(name+'.rsv','long',s.R+1,name+'.rs',mode)
    o.abs[16]=c._buf(name+'.cov','long',s.N,name+'.co',mode); o.abs[24]=c._buf(name+'.dav',KD[k],s.N,name+'.da',mode); o.abs[32]=c._buf(name+'.ddv','long',ONE,name+'.dd',mode)
    st.mem[name]=o; ax=st.facts.axioms
    ax['nonneg:'+name+'.d']=True; ax[name+'.d']=lambda a:[GE(a.poly,0)]
    ax['nonneg:'+name+'.dd']=True; ax[name+'.dd']=lambda a:[GE(a.poly,0),EQ(a.poly,s.N)]
    def frs(a):
        i=a.args[1]; v=a.poly
        return [GE(v,0)]+([] if v==s.N else [Implies(And(GE(i,0),LE(i,s.R)),LE(v,s.N))])+[Implies(EQ(i,0),EQ(v,0))]
    ax[name+'.rs']=frs
    ax[name+'.co']=lambda a:[Implies(And(GE(a.args[1],0),LT(a.args[1],s.N)),And(GE(a.poly,0),LT(a.poly,s.C)))]
    ax['monotone:'+name+'.rs']=True; ax['bound:'+name+'.co']=s.C
    p,q,r=fresh('p'),fresh('q'),fresh('r')
    if order:
        ax['segments:'+name+'.co']=(name+'.rs',s.R)
        c.assume(Forall((q,),Implies(And(GE(q,0),LT(q,s.R)),LE(s.rs(q),s.rs(q+1)))))
        c.assume(Forall((p,q),Implies(And(GE(p,0),LE(p,q),LE(q,s.R)),LE(s.rs(p),s.rs(q)))))
        c.assume(Forall((r,p,q),Implies(And(GE(r,0),LT(r,s.R),GE(p,s.rs(r)),LT(p,q),LT(q,s.rs(r+1))),LT(s.co(p),s.co(q)))))
    c.assume(GE(s.R,0),GE(s.C,0),EQ(s.rs(0),0),GE(s.N,0)); s.ptr=Ptr(name,0); c.syms.append(s); s.n=s.N; return s
class SpView:
    """a sparse matrix in the final state"""
    def __init__(s,c,st,p):
        s.c=c; s.st=st; s.p=p; v=lambda o: c.vview(st,Ptr(p.obj,p.off+o))
        s.d=v(0); s.rs=v(8); s.co=v(16); s.da=v(24); s.dd=v(32)
    def parts(s):
        for v in(s.d,s.rs,s.co,s.da,s.dd):
            if s.st.mem[v.ref.buf].external if hasattr(s.st.mem[v.ref.buf],'external') else False: raise Failed('parts are owned')
    def shape(s,R,C,N):
        s.d.len_is(2,'two dimensions'); s.d.elems([ONE],lambda i:i,lambda cc,i:P(R),'rows'); s.d.elems([ONE],lambda i:i+1,lambda cc,i:P(C),'columns')
        s.rs.len_is(P(R)+1,'one row offset per row and one more'); s.co.len_is(N,'one column per stored value'); s.da.len_is(N,'number of stored values'); s.dd.len_is(1,'values form a vector'); s.dd.elems([ONE],lambda i:i,lambda cc,i:P(N),'values form a vector')
    def like(s,S,elems,name='stored values'):
        """same shape and positions as S, values elems(cc,k)"""
        s.shape(S.R,S.C,S.N)
        s.rs.elems([S.R+1],lambda i:i,lambda cc,i:S.rs(i),'row offsets'); s.co.elems([S.N],lambda i:i,lambda cc,i:S.co(i),'columns')
        s.da.elems([S.N],lambda i:i,lambda cc,i:elems(cc,i),name)
