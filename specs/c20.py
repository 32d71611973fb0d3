from sparsespec import *
TUS=['@c20']+['sparse/%s.cc'%f for f in 'sparse_kron_d sparse_kron_z sparse_conj sparse_real sparse_imag sparse_d_to_z sparse_rows sparse_transpose_d sparse_transpose_z sparse_adjoint_d sparse_adjoint_z sparse_d sparse_z'.split()]+['tensor/tensor_%s.cc'%x for x in('d','z','conj','to_complex','imag_d','real_z','imag_z')]+['indices/indices.cc']
def mul(x,y,cc,k):
    if k=='d': return x(0)*y(0)
    return x(0)*y(0)-x(8)*y(8) if cc==0 else x(0)*y(8)+x(8)*y(0)
@spec('C20',f=['real','conj','imag','toc'],k=['d','z'])
def parts(c,f,k):
    S=sparse(c,'S',k); o=c.out(size=40)
    for st,_ in c.run('%s_%s'%(f,k),[o,S.ptr]):
        R=SpView(c,st,o)
        if f=='imag' and k=='d': R.shape(S.R,S.C,0); R.rs.elems([S.R+1],lambda i:i,lambda cc,i:ZERO,'row offsets'); continue
        def val(cc,i):
            if f=='imag': return S.at(i,8)
            if cc==8: return ZERO if k=='d' else -S.at(i,8) if f=='conj' else S.at(i,8)
            return S.at(i,0)
        R.like(S,val)
@spec('C20')
def rows(c):
    S=sparse(c,'S'); o=c.out(); a=c.st.mem[S.ptr.obj]
    for st,_ in c.run('rows_',[o,Ptr('S',8),Ptr('S',16)]):
        R=c.vview(st,o); R.len_is(S.N); R.fresh()
        R.elems([S.R,lambda i:S.rs(i+1)-S.rs(i)],lambda i,q:S.rs(i)+q,lambda cc,i,q:i,'row of every stored entry')
@spec('C20',f=['kron','kron2'],k=['d','z'])
def kron(c,f,k):
    A=sparse(c,'A',k); B=sparse(c,'B',k); o=c.out(size=40); X,Y=(A,B) if f=='kron' else (B,A)     # X outer, Y inner
    for st,_ in c.run('%s_%s'%(f,k),[o,A.ptr,B.ptr]):
        R=SpView(c,st,o); R.shape(X.R*Y.R,X.C*Y.C,X.N*Y.N)
        # row (l,p) starts after all earlier outer rows and the part of row l that belongs to earlier inner rows
        nx=lambda l: X.rs(l+1)-X.rs(l); ny=lambda p: Y.rs(p+1)-Y.rs(p)
        ro=lambda l,p: Y.N*X.rs(l)+Y.rs(p)*nx(l)
        R.rs.elems([ONE],lambda i:i,lambda cc,i:ZERO,'row offsets start at zero'); R.rs.elems([Y.R,X.R],lambda p,l:1+p+Y.R*l,lambda cc,p,l:ro(l,p+1),'row offsets')
        pos=lambda l,p,j,i: ro(l,p)+j*ny(p)+i
        V=[X.R,Y.R,lambda l,p:nx(l),lambda l,p,j:ny(p)]
        R.co.elems(V,pos,lambda cc,l,p,j,i: Y.co(Y.rs(p)+i)+Y.C*X.co(X.rs(l)+j),'columns')
        R.da.elems(V,pos,lambda cc,l,p,j,i: mul(lambda e:X.at(X.rs(l)+j,e),lambda e:Y.at(Y.rs(p)+i,e),cc,k),'values')
from coords import rows_of, coordinates
@spec('C20',f=['transpose','adjoint'],k=['d','z'])
def transposed(c,f,k):
    """the entry (i,j) of the result is the entry (j,i) of S, conjugated for the adjoint: what is stored there is stored, with that value, and nothing else"""
    S=sparse(c,'S',k); o=c.out(size=40); (pr,rho),(pc,made)=rows_of(S),coordinates(k)
    import re
    c.ex.prims[0:0]=[(re.compile(p),fn) for p,fn in(pr,pc)]
    sg=lambda cc: -1 if cc==8 and f=='adjoint' else 1
    i,j,t,q=c.int('i',0),c.int('j',0),c.int('t',0),c.int('q',0); c.assume(LT(i,S.C),LT(j,S.R))
    for st,_ in c.run('%s_%s'%(f,k),[o,S.ptr]):
        if len(made)!=1: raise Failed('built from coordinates once')
        x=made.pop(); V=SpView(c,st,o); V.shape(S.C,S.R,x.m); rd=lambda vw,i,g,cc=0: read_content(c.ex,g,st.mem[vw.ref.buf].content,P(i),cc)
        g=st.facts.add(x.in_order(i),x.columns(i,q),GE(q,x.rs(i)),LT(q+1,x.rs(i+1)))
        c.prove(st,EQ(rd(V.rs,0,st.facts),0),'first row offset'); c.prove(st,EQ(rd(V.rs,S.C,st.facts),x.m),'last row offset')
        lo,hi=rd(V.rs,i,g),rd(V.rs,i+1,g); c.prove(st,And(LE(0,lo),LE(lo,hi),LE(hi,x.m)),'row offsets in order',g); c.prove(st,LT(rd(V.co,q,g),rd(V.co,q+1,g)),'columns increase within a row',g)
        # whatever is stored in the result is stored in S
        g=st.facts.add(x.in_order(i),GE(q,lo),LT(q,hi),EQ(x.co(q),j),x.stored(i,q)); s=x.src(q)
        c.prove(st,And(GE(s,0),LT(s,S.N),LE(S.rs(j),s),LT(s,S.rs(j+1)),EQ(S.co(s),i),*[EQ(rd(V.da,q,g,cc),S.at(s,cc)*sg(cc)) for cc in S.comps]),'stored values are those of the matrix',g)
        # whatever is stored in S, and not zero, is stored in the result
        w=x.dst(t); g=st.facts.add(LE(S.rs(j),t),LT(t,S.rs(j+1)),EQ(S.co(t),i),Or(*[NE(S.at(t,cc),0) for cc in S.comps]))
        h=EQ(rho(t),j); g=g.add(*[Implies(And(LE(P(a)+1,b),GE(a,0),LE(b,S.R)),LE(S.rs(a+1),S.rs(b))) for a,b in((rho(t),j),(j,rho(t)))])
        c.prove(st,h,'row of the value',g); g=g.add(h,x.present(t))
        c.prove(st,And(LE(rd(V.rs,i,g),w),LT(w,rd(V.rs,i+1,g)),EQ(rd(V.co,w,g),j)),'stored values of the matrix are stored',g)
        g=g.add(LE(x.rs(i),w),LT(w,x.rs(i+1)),EQ(x.co(w),j),x.stored(i,w)); s=x.src(w)
        d=lambda a,b: Implies(And(LE(S.rs(j),a),LT(a,b),LT(b,S.rs(j+1))),LT(S.co(a),S.co(b)))
        c.prove(st,EQ(s,t),'a position is stored once',g.add(d(s,t),d(t,s))); g=g.add(EQ(s,t))
        c.prove(st,And(*[EQ(rd(V.da,w,g,cc),S.at(t,cc)*sg(cc)) for cc in S.comps]),'value of the element',g)
from coords import place
@spec('C20',k=['d','z'])
def kron2_sum(c,k):
    """kron(X,1)+kron(1,Y), with identities of the shapes of Y and X (kron, + and eye by their contracts); which operand is X is a recorded finding"""
    A=sparse(c,'A',k); B=sparse(c,'B',k); o=c.out(size=40); of={}; import re
    of['A.dav']=('A',); of['B.dav']=('B',); N={'A':A,'B':B}
    key=lambda st,p: of.get(st.mem[p.obj].abs[int(p.off.const())+24].buf)
    def make(st,out,R,C,tag):
        u=newid('sp'); m=fresh('m'); st.assume(GE(m,0)); of[place(st,out,k,u,R,C,m,lambda i,cc: Sel(u+'.rs',P(i),0,'I'),lambda i,cc: Sel(u+'.co',P(i),0,'I'),lambda i,cc: Sel(u+'.da',P(i),cc,'R'))]=tag
    def p_eye(ex,st,a,name):
        R,C=(a[1],a[2]) if len(a)>2 else (a[1],a[1]); ex.require(st,And(GE(R,0),GE(C,0)),'size of the identity'); make(st,a[0],R,C,('eye',R,C))
    def p_kron(ex,st,a,name):
        x,y=key(st,a[1]),key(st,a[2])
        if not x or not y: raise Unsupported('factor')
        make(st,a[0],fresh('r'),fresh('c'),('kron',x,y))
    def p_add(ex,st,a,name):
        x,y=key(st,a[1]),key(st,a[2])
        if not x or not y: raise Unsupported('term')
        make(st,a[0],fresh('r'),fresh('c'),('+',x,y))
    E='double' if k=='d' else 'std::complex<double>'; T=r'tensor::Sparse<%s ?>'%E
    c.ex.prims[0:0]=[(re.compile(p),f) for p,f in((T+r'::eye\(.*\)',p_eye),(r'tensor::kron\(%s const&, %s const&\)'%(T,T),p_kron),(r'.*tensor::operator\+.*',p_add))]
    for st,_ in c.run('kronsum_'+k,[o,A.ptr,B.ptr]):
        t=key(st,o); ok=bool(t) and t[0]=='+' and t[1][0]==t[2][0]=='kron'; c.ex.log('a sum of two products',ok)
        if not ok: raise Failed('a sum of two products')
        x,y=[u for u in t[1:] if u[1][0] in N],[u for u in t[1:] if u[2][0] in N]
        ok=len(x)==len(y)==1 and x[0][1]!=y[0][2] and x[0][2][0]==y[0][1][0]=='eye'; c.ex.log('an operand times an identity, and an identity times the other operand',ok)
        if not ok: raise Failed('an operand times an identity, and an identity times the other operand')
        X,Y=N[x[0][1][0]],N[y[0][2][0]]
        for M,(_,R,C) in((Y,x[0][2]),(X,y[0][1])): c.prove(st,And(EQ(R,M.R),EQ(C,M.C)),'identity of the shape of the other operand')
