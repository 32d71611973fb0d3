from spec import *
from lapack import Lap,PRIMS_LAPACK
from blas import PRIMS_IO
TUS=['@c25']+['linalg/%s_%s.cc'%(f,x) for f in('solve','svd','eig','eig_sym','expm','solve_with_svd') for x in 'dz']+['tensor/tensor_d.cc','tensor/tensor_z.cc','tensor/tensor_to_complex.cc','indices/indices.cc']
PR=PRIMS_LAPACK+PRIMS_IO
def spec_(**v):
    def w(f):
        g=spec('C25',**v)(f); f.prims=PR; return g
    return w
def calls(st): return [o.d for o in st.mem.values() if isinstance(o,Lap)]
def one(c,st,fn):
    l=calls(st); ok=len(l)==1 and l[0]['fn']==fn; c.ex.log('the routine is called once',ok)
    if not ok: raise Failed('the routine is called once',str([d['fn'] for d in l]))
    return l[0]
def given(c,st,content,ldim,m,n,A,name):
    """the routine was given the matrix A"""
    i,j=fresh('i'),fresh('j'); f=st.facts.add(GE(i,0),LT(i,m),GE(j,0),LT(j,n))
    if not feasible(f): return
    for cc in A.comps: c.prove(st,EQ(read_content(c.ex,f,content,i+ldim*j,cc),A.at(i+m*j,cc)),name,f)
def gives(c,st,T,sym,ldim,m,n,comps,name):
    T.elems([m,n],lambda i,j:i+m*j,lambda cc,i,j:Sel(sym,i+ldim*j,cc),name)
KZ=['d','z']
def comps(k): return comps_of(KD[k])
@spec_(k=KZ,shared=[0,1])
def solve(c,k,shared):
    m='shared' if shared else 'in'
    A=c.tensor('A',k,2,mode=m); B=c.tensor('B',k,mode=m); c.assume(GE(A.d(0),1),EQ(A.d(1),A.d(0)),EQ(B.d(0),A.d(0))); o=c.out(); n=A.d(0); q=B.P(1,B.r)
    for st,_ in c.run('solve_'+k,[o,A.ptr,B.ptr]):
        X=c.tview(st,o); X.rank_is(B.r); D=fresh('D'); X.dim(D,B.d(D),extra=(GE(D,0),LT(D,B.r))); L=calls(st)
        if not L and prove(st.facts,EQ(B.n,0)): continue
        L=one(c,st,'gesv'); c.prove_eq(st,L['n'],n,'number of equations'); c.prove_eq(st,L['nrhs'],q,'number of right hand sides')
        given(c,st,L['A'],L['lda'],n,n,A,'the matrix of the system'); given(c,st,L['B'],L['ldb'],n,q,B,'the right hand side')
        gives(c,st,X,'x:'+L['name'],L['ldb'],n,q,A.comps,'the solution')
@spec_(k=KZ)
def singular(c,k):
    A=c.tensor('A',k,2); B=c.tensor('B',k); c.assume(GE(A.d(0),1),EQ(A.d(1),A.d(0)),EQ(B.d(0),A.d(0)),GE(B.n,1)); c.ex.lapack_info=1
    c.run('solve_'+k,[c.out(),A.ptr,B.ptr],expect='abort')
@spec_(k=KZ,w=['square','mismatch'])
def solve_inadmissible(c,k,w):
    A=c.tensor('A',k,2); B=c.tensor('B',k)
    c.assume(NE(A.d(1),A.d(0)) if w=='square' else NE(B.d(0),A.d(0)))
    c.run('solve_'+k,[c.out(),A.ptr,B.ptr],expect='abort')
@spec_(k=KZ,u=[0,1],v=[0,1],e=[0,1],shared=[0,1])
def svd(c,k,u,v,e,shared):
    A=c.tensor('A',k,2,mode='shared' if shared else 'in'); c.assume(GE(A.d(0),1),GE(A.d(1),1)); o=c.out(); m,n=A.d(0),A.d(1); mn=Ite(LE(m,n),m,n)
    U=c.tensor('U',k,mode='own') if u else None; V=c.tensor('V',k,mode='own') if v else None
    for st,_ in c.run('svd_'+k,[o,A.ptr,U.ptr if u else NULL,V.ptr if v else NULL,P(e)]):
        L=one(c,st,'gesvd'); c.prove_eq(st,L['m'],m,'rows'); c.prove_eq(st,L['n'],n,'columns'); given(c,st,L['A'],L['lda'],m,n,A,'the decomposed matrix')
        T=c.tview(st,o); T.shape([mn]); T.elems([mn],lambda i:i,lambda cc,i:Sel('s:'+L['name'],i,0),'singular values')
        for x,p,f,job in((u,U,'ju','left'),(v,V,'jv','right')):
            want='N' if not x else 'S' if e else 'A'; ok=L[f]==want or want=='A' and L[f]=='S' and False; c.ex.log(job+' vectors as requested',ok)
            if not ok: raise Failed(job+' vectors as requested',L[f])
        if u: T=c.tview(st,U.ptr); w=mn if e else m; T.shape([m,w]); T.elems([m,w],lambda i,j:i+m*j,lambda cc,i,j:Sel('u:'+L['name'],i+L['ldu']*j,cc),'left vectors')
        if v: T=c.tview(st,V.ptr); w=mn if e else n; T.shape([w,n]); T.elems([w,n],lambda i,j:i+w*j,lambda cc,i,j:Sel('v:'+L['name'],i+L['ldv']*j,cc),'right vectors')
@spec_(k=KZ,w=['rows','columns'])
def svd_empty(c,k,w):
    A=c.tensor('A',k,2); c.assume(EQ(A.d(0 if w=='rows' else 1),0)); c.run('svd_'+k,[c.out(),A.ptr,NULL,NULL,P(0)],expect='abort')
@spec_(k=KZ,f=['svd','eigsym','eig'])
def not_a_matrix(c,k,f):
    A=c.tensor('A',k); c.assume(GE(A.r,3),*([GE(A.d(0),1)])); c.run('%s_%s'%(f,k),[c.out(),A.ptr,NULL]+([NULL] if f!='eigsym' else [])+([P(0)] if f=='svd' else []),expect='abort')
@spec_(k=KZ,f=['eigsym','eig'],w=['square','empty'])
def eig_inadmissible(c,k,f,w):
    A=c.tensor('A',k,2); c.assume(NE(A.d(0),A.d(1)) if w=='square' else EQ(A.d(0),0)); c.run('%s_%s'%(f,k),[c.out(),A.ptr,NULL]+([NULL] if f!='eigsym' else []),expect='abort')
@spec_(k=KZ)
def expm_not_square(c,k):
    A=c.tensor('A',k,2); c.assume(NE(A.d(0),A.d(1))); c.run('expm_'+k,[c.out(),A.ptr,P(7)],expect='abort')
@spec_(k=KZ,v=[0,1],shared=[0,1])
def eig_sym(c,k,v,shared):
    A=c.tensor('A',k,2,mode='shared' if shared else 'in'); c.assume(GE(A.d(0),1),EQ(A.d(1),A.d(0))); o=c.out(); n=A.d(0); V=c.tensor('V',k,mode='own') if v else None
    for st,_ in c.run('eigsym_'+k,[o,A.ptr,V.ptr if v else NULL]):
        L=one(c,st,'syev'); c.prove_eq(st,L['n'],n,'size'); given(c,st,L['A'],L['lda'],n,n,A,'the decomposed matrix')
        T=c.tview(st,o); T.shape([n]); T.elems([n],lambda i:i,lambda cc,i:Sel('w:'+L['name'],i,0),'eigenvalues')
        ok=L['jz']==('V' if v else 'N') and L['up'] in 'UL'; c.ex.log('vectors as requested',ok)
        if not ok: raise Failed('vectors as requested')
        if v: T=c.tview(st,V.ptr); T.shape([n,n]); T.elems([n,n],lambda i,j:i+n*j,lambda cc,i,j:Sel('v:'+L['name'],i+L['lda']*j,cc),'vectors')
@spec_(r=[0,1],l=[0,1],shared=[0,1])
def eig_complex(c,r,l,shared):
    A=c.tensor('A','z',2,mode='shared' if shared else 'in'); c.assume(GE(A.d(0),1),EQ(A.d(1),A.d(0))); o=c.out(); n=A.d(0); R=c.tensor('R','z',mode='own') if r else None; Lf=c.tensor('L','z',mode='own') if l else None
    for st,_ in c.run('eig_z',[o,A.ptr,R.ptr if r else NULL,Lf.ptr if l else NULL]):
        L=one(c,st,'geev'); c.prove_eq(st,L['n'],n,'size'); given(c,st,L['A'],L['lda'],n,n,A,'the decomposed matrix')
        T=c.tview(st,o); T.shape([n]); T.elems([n],lambda i:i,lambda cc,i:Sel('w:'+L['name'],i,cc),'eigenvalues')
        for x,p,f,g in((r,R,'jr','r:'),(l,Lf,'jl','l:')):
            ok=L[f]==('V' if x else 'N'); c.ex.log('vectors as requested',ok)
            if not ok: raise Failed('vectors as requested')
            if x: T=c.tview(st,p.ptr); T.shape([n,n]); T.elems([n,n],lambda i,j:i+n*j,lambda cc,i,j:Sel(g+L['name'],i+L['ld'+g[0]]*j,cc),'vectors')
# ------------------------------------------------ eigenvalues of a real matrix: pairs of complex values and vectors are put together
import given as G,refs
class Pairs(G.Inv):
    """columns below i are done, and i is not the second of a pair"""
    n=None; outer=False; ptrs=None; r0=q0=None
    def match(s):
        l=[d for d in calls(s.st) if d['fn']=='geev']
        if len(l)!=1 or s.__class__.outer: return False
        ints=[r for r,v in s.init.items() if isinstance(v,Poly)]
        if len(s.init)!=1 or len(ints)!=1 or s.init[ints[0]]!=ZERO: return False
        s.v0=ints[0]; s.L=l[0]; s.buf={k:refs.ref_at(s.st,p).buf for k,p in s.ptrs.items()}; return True
    def i(s,v): return v.phi[s.v0]
    def writes(s): return list(s.buf.values())
    def enter(s,st,v,g): s.__class__.outer=True
    def leave(s,o,g,v): s.__class__.outer=False
    def variant(s,v,g): return s.n-s.i(v)
    def w(s,q): return Sel('w:'+s.L['name'],q,0)
    def wi(s,q): return Sel('wi:'+s.L['name'],q,0)
    def instances(s,v,g):
        i,n=s.i(v),s.n; out=[]
        for p in(i,i+1,i+2,s.q0): out.append(Implies(And(GE(p,0),LT(p,n)),pairs(s.L['name'],n,p)))
        for d in range(-1,3):      # multiples of n
            a,b=GE(s.q0-i,d),GE(n*(s.q0-i),n*d)
            for x,y in((a,b),(LE(s.q0-i,d),LE(n*(s.q0-i),n*d))):
                if prove(Facts().add(GE(n,1),x),y): out.append(Implies(x,y))
        return out
    def clauses(s):
        X=lambda v,k,q,cc,f: v.rd(s.buf[k],q,cc,f); wi=s.wi
        L=[G.fact('position',lambda v,g,f: And(GE(s.i(v),0),LE(s.i(v),s.n),Implies(LT(s.i(v),s.n),GE(wi(s.i(v)),0))))]
        L.append(G.every('eigenvalues',lambda v,g,f:(ZERO,s.n),lambda v,g,f,q: And(EQ(X(v,'o',q,0,f),s.w(q)),EQ(X(v,'o',q,8,f),Ite(LT(q,s.i(v)),wi(q),0)))))
        for k in s.ptrs:
            if k!='o':
                def el(v,g,f,k=k):
                    x=vector(s.L,k,s.r0,s.q0,LT(s.q0,s.i(v))); p=s.r0+s.n*s.q0
                    return And(EQ(X(v,k,p,0,f),x[0]),EQ(X(v,k,p,8,f),x[1]))
                L.append(G.fact('vectors '+k,el))
        return L
def pairs(name,n,p):
    """contract of dgeev: complex eigenvalues come in conjugate pairs, the one with positive imaginary part first"""
    w=lambda q: Sel('w:'+name,q,0); wi=lambda q: Sel('wi:'+name,q,0)
    return And(Implies(GT(wi(p),0),And(LT(p+1,n),EQ(wi(p+1),-wi(p)),EQ(w(p+1),w(p)))),Implies(LT(wi(p),0),And(GE(p,1),EQ(wi(p-1),-wi(p)),EQ(w(p-1),w(p)))))
def vector(L,k,i,j,done=TRUE):
    """vector j: column j for a real eigenvalue, columns (j, j+1) the real and imaginary parts for the first of a pair, the conjugate for the second"""
    s=lambda q: Sel(k.lower()+':'+L['name'],i+L['ld'+k.lower()]*q,0); wi=Sel('wi:'+L['name'],j,0); neg,pos=And(done,LT(wi,0)),And(done,GT(wi,0))
    return Ite(neg,s(j-1),s(j)),Ite(pos,s(j+1),Ite(neg,-s(j),0))
@spec_(r=[0,1],l=[0,1],shared=[0,1])
def eig_real(c,r,l,shared):
    A=c.tensor('A','d',2,mode='shared' if shared else 'in'); c.assume(GE(A.d(0),1),EQ(A.d(1),A.d(0))); o=c.out(); n=A.d(0); R=c.tensor('R','z',mode='own') if r else None; Lf=c.tensor('L','z',mode='own') if l else None
    class Q(Pairs): pass
    Q.n=n; Q.ptrs={'o':o,**({'R':R.ptr} if r else {}),**({'L':Lf.ptr} if l else {})}; Q.r0,Q.q0=c.int('r0',0),c.int('q0',0); c.assume(LT(Q.r0,n),LT(Q.q0,n)); c.ex.invs=[Q]
    for st,_ in c.run('eig_d',[o,A.ptr,R.ptr if r else NULL,Lf.ptr if l else NULL]):
        L=one(c,st,'geev'); c.prove_eq(st,L['n'],n,'size'); given(c,st,L['A'],L['lda'],n,n,A,'the decomposed matrix')
        T=c.tview(st,o); T.shape([n]); T.elems([n],lambda i:i,lambda cc,i:Sel(('wi:' if cc else 'w:')+L['name'],i,0),'eigenvalues')
        for x,p,f,g in((r,R,'jr','R'),(l,Lf,'jl','L')):
            ok=L[f]==('V' if x else 'N'); c.ex.log('vectors as requested',ok)
            if not ok: raise Failed('vectors as requested')
            if x:
                T=c.tview(st,p.ptr); T.shape([n,n]); b=refs.ref_at(st,p.ptr).buf; q=Q.r0+n*Q.q0; v=vector(L,g,Q.r0,Q.q0)
                for cc in(0,8): c.prove(st,EQ(read_content(c.ex,st.facts,st.mem[b].content,q,cc),v[cc//8]),'vectors')
# ------------------------------------------------ exponential: the Pade quotient of A/2^j, squared j times
# Every matrix of the algorithm is a polynomial or a quotient in A alone, and such matrices commute: an identity between them is an
# identity of rational functions, so a matrix is denoted by its value at a number a that stands for A (homomorphism of commutative rings).
Quo=lambda a,b: P(a)*Inv(P(b))
EL={'d':'double','z':'std::complex<double>'}
def ring(c,k,n):
    E=re.escape(EL[k]); T=r'tensor::Tensor<%s ?>'%E; R=T+' (?:const)?&'
    def val(st,x,mat):
        if isinstance(x,Poly) and not mat: return x
        if isinstance(x,Ptr) and x.obj is not None:
            o=st.mem.get(x.obj); v=o.cells.get(x.off.const()) if isinstance(o,Cells) else None
            if v and isinstance(v[1],Poly) and (v[0]==16)==mat: return v[1]
        raise Unsupported('not a %s of the algorithm'%('matrix' if mat else 'number'))
    def put(st,p,v):
        o=st.w(p.obj)
        if not isinstance(o,Cells): raise Unsupported('matrix in an array')
        o.cells[p.off.const()]=(16,v)
    def op(kinds,fn):
        def f(ex,st,args,nm):
            if len(args)!=1+len(kinds): raise Unsupported('operands of '+nm)
            put(st,args[0],fn(ex,st,*[val(st,a,m=='m') if m in 'ms' else a for a,m in zip(args[1:],kinds)])); return [(st,'ret',None)]
        return f
    def assign(ex,st,args,nm): put(st,args[0],val(st,args[1],True)); return [(st,'ret',args[0])]
    def upd(fn,mat):
        def f(ex,st,args,nm): put(st,args[0],fn(val(st,args[0],True),val(st,args[1],mat))); return [(st,'ret',args[0])]
        return f
    def nop(ex,st,args,nm): return [(st,'ret',None)]
    def number(v):
        def f(ex,st,args,nm): val(st,args[0],True); return [(st,'ret',v)]
        return f
    def norm(ex,st,args,nm): return [(st,'ret',App('norminf',val(st,args[0],True)))]
    def eye(ex,st,*a):
        for x in a: ex.log('size of the unit matrix',prove(st.facts,EQ(x,n)))
        if not all(prove(st.facts,EQ(x,n)) for x in a): raise Failed('size of the unit matrix')
        return ONE
    def product(ex,st,a,i,b,j):
        if not(prove(st.facts,Or(EQ(i,-1),EQ(i,1))) and prove(st.facts,EQ(j,0))): raise Unsupported('contraction that is not the product of matrices')
        return a*b
    def solved(ex,st,a,b):
        x=fresh('x','R'); st.assume(EQ(a*x,b)); return x
    t=r'(?:tensor::Tensor<[^()]*> )?tensor::operator'; w=r'(?:<[^()]*>)?'
    c.ex.prims[0:0]=[(re.compile(p),f) for p,f in(
        (T+r'::Tensor\(%s&?\)'%R,lambda ex,st,a,nm: (put(st,a[0],val(st,a[1],True)),[(st,'ret',None)])[1]),(T+r'::~Tensor\(\)',nop),(T+r'::operator=\(%s&?\)'%R,assign),
        (T+r'::rank\(\) const',number(P(2))),(T+r'::(?:rows|columns)\(\) const',number(n)),(T+r'::eye\(long\)',op('i',eye)),(T+r'::eye\(long, long\)',op('ii',eye)),
        (t+r'\+%s\(%s, %s\)'%(w,R,R),op('mm',lambda ex,st,a,b:a+b)),(t+r'-%s\(%s, %s\)'%(w,R,R),op('mm',lambda ex,st,a,b:a-b)),(t+r'-%s\(%s\)'%(w,R),op('m',lambda ex,st,a:-a)),
        (t+r'\*%s\((?:double|%s)(?: const&)?, %s\)'%(w,E,R),op('sm',lambda ex,st,a,b:a*b)),(t+r'\*%s\(%s, (?:double|%s)(?: const&)?\)'%(w,R,E),op('ms',lambda ex,st,a,b:a*b)),(t+r'/%s\(%s, (?:double|%s)(?: const&)?\)'%(w,R,E),op('ms',lambda ex,st,a,b:Quo(a,b))),
        (r'tensor::Tensor<[^()]*>& tensor::operator\+=%s\(%s, %s\)'%(w,R,R),upd(lambda a,b:a+b,True)),(r'tensor::Tensor<[^()]*>& tensor::operator-=%s\(%s, %s\)'%(w,R,R),upd(lambda a,b:a-b,True)),
        (r'tensor::mmult\(%s, %s\)'%(R,R),op('mm',lambda ex,st,a,b:a*b)),(r'tensor::fold\(%s, int, %s, int\)'%(R,R),op('mimi',product)),
        (r'exp2',lambda ex,st,a,nm: [(st,'ret',App('exp2',a[0]))]),(r'tensor::matrix_norminf\(%s\)'%R,norm),(r'linalg::solve\(%s, %s\)'%(R,R),op('mm',solved)))]
    return val,put
def same(st,x,y,fs):
    """equal arguments, equal values"""
    if prove(st.facts,EQ(x,y)): st.assume(*[EQ(App(f,x),App(f,y)) for f in fs])
class Taylor(G.Inv):
    """before step k: the coefficient, the power and the two polynomials of degree k-1"""
    cells_change=True; q=None; a=None
    def match(s):
        cl=s.__class__
        if 'polynomials' in s.st.mem: return False
        ints=[r for r in s.init if s.ty[r][0]!='f']; fl=[r for r in s.init if s.ty[r][0]=='f']
        if len(ints)!=1 or len(s.init)!=len(fl)+1 or len(fl)>1: return False
        s.k=ints[0]; s.c=fl[0] if fl else None; s.pos=cl.roles(s.st,s.c is None); return s.pos is not None
    def kk(s,v): return v.phi[s.k]
    def candidates(s,r): return [lambda v,g: App('pade.c',s.kk(v)-1)] if r==s.c else []
    def cells_are(s): return {s.pos[x]:(lambda x: lambda v,g: App('pade.'+x,s.kk(v)-1))(x) for x in s.pos}
    def enter(s,st,v,g): st.mem['polynomials']=Cells('polynomials',8,'ghost')
    def leave(s,o,g,v): same(o[1],s.kk(v)-1,s.q,('pade.n','pade.d'))
    def variant(s,v,g): return s.q+1-s.kk(v)
    def instances(s,v,g): k=s.kk(v); return [pade(s.q,s.a,x) for x in((ONE,k) if not k.is_const() else (ONE,))]
    def clauses(s):
        k=s.kk
        return [G.fact('step',lambda v,g,f: And(GE(k(v),2),LE(k(v),s.q+1)))]
def pade(q,a,k):
    """definition of the coefficients c_k, the powers a^k and the sums N_k=sum_{i<=k} c_i a^i and D_k=sum_{i<=k} c_i (-a)^i"""
    F=lambda n,x: App('pade.'+n,x)
    if k==ONE: return And(EQ(F('c',ONE),Quo(1,2)),EQ(F('x',ONE),a),EQ(F('n',ONE),1+a*Quo(1,2)),EQ(F('d',ONE),1-a*Quo(1,2)))
    ck=Quo(F('c',k-1)*(q-k+1),k*(2*q-k+1)); xk=a*F('x',k-1); t=ck*xk
    return And(EQ(F('c',k),ck),EQ(F('x',k),xk),EQ(F('n',k),F('n',k-1)+t),EQ(F('d',k),F('d',k-1)+Ite(EQ(Mod(k,2),0),t,-t)))
class Squares(G.Inv):
    """before step k: the quotient squared k-1 times"""
    cells_change=True; j=None; o=None
    def match(s):
        if 'polynomials' not in s.st.mem or 'squares' in s.st.mem or len(s.init)!=1: return False
        s.k=[*s.init][0]; s.x0=s.st.mem[s.o].cells[0][1]; return True
    def enter(s,st,v,g): m=st.mem['squares']=Cells('squares',16,'ghost'); m.cells[0]=(8,s.x0); m.cells[8]=(8,s.j)
    def kk(s,v): return v.phi[s.k]
    def leave(s,o,g,v): same(o[1],s.kk(v)-1,s.j,('square',))
    def variant(s,v,g): return s.j+1-s.kk(v)
    def instances(s,v,g):
        k=s.kk(v); out=[EQ(App('square',ZERO),s.x0)]
        if not k.is_const(): out.append(EQ(App('square',k),App('square',k-1)*App('square',k-1)))
        return out
    def clauses(s):
        return [G.fact('step',lambda v,g,f: And(GE(s.kk(v),1),LE(s.kk(v),s.j+1))),G.fact('square',lambda v,g,f: EQ(v.st.mem[s.o].cells[0][1],App('square',s.kk(v)-1)))]
@spec_(k=KZ)
def expm(c,k):
    n=c.int('n',1); q=c.int('order',1); a0=Var('a','R'); o=c.out(); c.st.mem['A']=Cells('A',16,'param'); c.st.mem['A'].cells[0]=(16,a0); val,put=ring(c,k,n)
    lg=App('log2',App('norminf',a0)); fl=App('trunc',App('floor',lg),sort='I'); c.assume(LE(fl,lg),LT(lg,fl+1))
    class T(Taylor): pass
    class Q(Squares): pass
    T.q=q; Q.o='out'
    def roles(st,coefficient):
        """the matrices of the loop by what they hold at its start"""
        x=st.mem['out'].cells.get(0)
        if not x: return None
        a=x[1]; T.a=a; pos={'x':('out',0)}
        es=[t for t in all_atoms(a) if t.kind=='app' and t.args[0]=='exp2']
        if len(es)!=1: return None
        j=es[0].args[1] if isinstance(es[0].args[1],Poly) else es[0].args[1][0]; Q.j=j
        c.prove(st,EQ(a,Quo(a0,App('exp2',j))),'the argument is scaled by a power of two'); c.prove(st,And(GE(j,0),GT(j,lg)),'the norm of what is left is below one')
        for m,want,sz in(('n',1+a*Quo(1,2),16),('d',1-a*Quo(1,2),16))+((('c',Quo(1,2),8),) if coefficient else ()):
            l=[(i,f) for i,ob in st.mem.items() if isinstance(ob,Cells) for f,v in ob.cells.items() if v[0]==sz and isinstance(v[1],Poly) and i!='out' and prove(st.facts,EQ(v[1],want))]
            if not l: return None
            pos[m]=l[-1]
        return pos
    T.roles=staticmethod(roles); c.ex.invs=[T,Q]
    for st,_ in c.run('expm_'+k,[o,Ptr('A',0),q]):
        ok='squares' in st.mem; c.ex.log('quotient of polynomials',ok)
        if not ok: raise Failed('quotient of polynomials')
        x0,j=[st.mem['squares'].cells[f][1] for f in(0,8)]
        c.prove(st,EQ(val(st,o,True),App('square',j)),'the quotient is squared as often as the argument was halved')
        c.prove(st,EQ(App('pade.d',q)*x0,App('pade.n',q)),'the quotient of the two polynomials')
        c.prove(st,EQ(val(st,Ptr('A',0),True),a0),'the argument is not modified')
# ------------------------------------------------ pseudoinverse: X = V diag(1/s) U* B over the values above the tolerance
# a tensor of the algorithm is known by its role ('U','s','V',...) and by how many singular values are left in it; svd, slices,
# contraction and scaling by their contracts (C25, C05, C11, C12, C07)
def svd_roles(c,k,k0,D,ncol):
    t=r'tensor::Tensor<[^()]*>'; R=t+' const&'; made=[]
    def get(st,p):
        o=st.mem.get(p.obj); f=p.off.const()
        if not isinstance(o,Cells) or (f+8) not in o.cells or not isinstance(o.cells[f+8][1],tuple): raise Unsupported('not a matrix of the algorithm')
        return o.cells[f+8][1][0],o.cells[f][1]
    def put(st,p,role,n): o=st.w(p.obj); f=p.off.const(); o.cells[f]=(8,P(n)); o.cells[f+8]=(8,(role,))
    def need(ok,what):
        c.ex.log(what,ok)
        if not ok: raise Failed(what)
    def nothing(ex,st,a,nm): return [(st,'ret',None)]
    def copy(ex,st,a,nm): put(st,a[0],*get(st,a[1])); return [(st,'ret',None)]
    def assign(ex,st,a,nm): put(st,a[0],*get(st,a[1])); return [(st,'ret',a[0])]
    def psvd(ex,st,a,nm):
        s,A,u,v,e=a; need(get(st,A)[0]=='A','the matrix is decomposed'); need(prove(st.facts,NE(e,0) if isinstance(e,Poly) else e),'the economic form is asked for')
        put(st,s,'s',k0); put(st,u,'U',k0); put(st,v,'V',k0); return [(st,'ret',None)]
    def size(ex,st,a,nm):
        r,n=get(st,a[0]); need(r=='s','number of singular values'); return [(st,'ret',n)]
    def elem(ex,st,a,nm):
        r,n=get(st,a[0]); need(r=='s','a singular value'); ex.require(st,And(GE(a[1],0),LT(a[1],n)),'a singular value that is left'); return [(st,'ret',Ptr('values',P(8)*a[1]))]
    def rng(ex,st,a,nm):
        o=newid('range'); st.mem[o]=Cells(o,16,'ghost'); st.mem[o].cells[0]=(16,tuple(a)); return [(st,'ret',Ptr(o,0))]
    def slices(ex,st,a,nm):
        r,n=get(st,a[1]); l=[st.mem[p.obj].cells[0][1] for p in a[2:]]; where={'U':1,'V':0,'s':0}[r]
        need(len(l)==(1 if r=='s' else 2) and all(len(x)==(2 if i==where else 0) for i,x in enumerate(l)),'slice of the dimension of the singular values')
        lo,hi=l[where]; c.prove(st,And(EQ(lo,0),GE(hi,0),LT(hi,n)),'the first values are kept'); put(st,a[0],r,hi+1); return [(st,'ret',None)]
    def foldc(ex,st,a,nm):
        (r1,n1),(r2,n2)=get(st,a[1]),get(st,a[3]); c.prove(st,And(EQ(a[2],0),EQ(a[4],0)),'contracted dimensions')
        if (r1,r2)==('U','B'): put(st,a[0],'U*B',n1)
        else:
            need((r1,r2)==('V','S U*B'),'the order of the factors'); c.prove(st,EQ(n1,n2),'as many values in both factors'); put(st,a[0],'result',n1)
        return [(st,'ret',None)]
    def quot(ex,st,a,nm):
        r,n=get(st,a[2]); need(r=='s','inverse of the values'); x=a[1] if isinstance(a[1],Poly) else st.mem[a[1].obj].cells[a[1].off.const()][1]; c.prove(st,EQ(x,1),'inverse of the values'); put(st,a[0],'1/s',n); return [(st,'ret',None)]
    def scale(ex,st,a,nm):
        (r1,n1),(r2,n2)=get(st,a[0]),get(st,a[2]); need((r1,r2)==('U*B','1/s'),'scaled by the inverse values'); c.prove(st,And(EQ(a[1],0),EQ(n1,n2)),'as many values as rows'); put(st,a[0],'S U*B',n1); return [(st,'ret',None)]
    def dims(ex,st,a,nm):
        need(get(st,a[0])[0]=='B','dimensions of the right hand side'); return [(st,'ret',D.ptr)]
    def cols(ex,st,a,nm):
        need(get(st,a[0])[0]=='A','columns of the matrix'); return [(st,'ret',ncol)]
    def zeros(ex,st,a,nm):
        V=c.vview(st,a[1]); V.len_is(D.n,'rank of the result'); q=fresh('q'); f=st.facts.add(GE(q,0),LT(q,D.n)); c.prove(st,EQ(read_content(c.ex,f,V.buf.content,q,0),Ite(EQ(q,0),ncol,D.at(q))),'dimensions of the result',f)
        put(st,a[0],'zeros',0); return [(st,'ret',None)]
    c.ex.prims[0:0]=[(re.compile(p),f) for p,f in((t+r'::Tensor\(\)',nothing),(t+r'::Tensor\(%s&?\)'%(t+'( const)?&'),copy),(t+r'::~Tensor\(\)',nothing),(t+r'::operator=\(%s&?\)'%(t+'( const)?&'),assign),
        (r'linalg::svd\(.*\)',psvd),(t+r'::size\(\) const',size),(t+r'::operator\[\]\(long\) const',elem),(r'tensor::range\(\)',rng),(r'tensor::range\(long, long\)',rng),(t+r'::operator\(\)\(tensor::PRange(, tensor::PRange)?\) const',slices),
        (t+r'::view::operator tensor::Tensor<.*>\(\) const',copy),(t+r'::view::~view\(\)',nothing),(r'tensor::foldc\(%s, int, %s, int\)'%(R,R),foldc),(r'(?:tensor::Tensor<.*> )?tensor::operator/(?:<.*>)?\(double(?: const&)?, %s\)'%R,quot),
        (r'tensor::scale_inplace\(%s, int, %s\)'%(t+'&',R),scale),(t+r'::dimensions\(\) const',dims),(t+r'::columns\(\) const',cols),(t+r'::zeros\(tensor::Indices const&\)',zeros))]
    return get
class Cut(G.Inv):
    """the values before i are above the tolerance, and all of them are left - or the first one that is not was just met and the tail dropped"""
    cells_change=True; k0=None; T=None
    def match(s):
        if len(s.init)!=1: return False
        s.k=[*s.init][0]; s.pos={}
        for o,ob in s.st.mem.items():
            v=ob.cells.get(8) if isinstance(ob,Cells) else None
            if v and isinstance(v[1],tuple) and v[1][0] in('U','s','V') and o not in('A','B'): s.pos.setdefault(v[1][0],o)
        return len(s.pos)==3
    def i(s,v): return v.phi[s.k]
    def left(s,v,r): return v.st.mem[s.pos[r]].cells[0][1]
    def variant(s,v,g): return s.k0+1-s.i(v)
    def clauses(s):
        n=lambda v: s.left(v,'s'); val=lambda q: Sel('sv',q,0,'R')
        return [G.fact('position',lambda v,g,f: And(GE(s.i(v),0),LE(s.i(v),s.k0))),G.fact('as many in every factor',lambda v,g,f: And(EQ(s.left(v,'U'),n(v)),EQ(s.left(v,'V'),n(v)))),
            G.fact('all or up to the last one',lambda v,g,f: Or(EQ(n(v),s.k0),And(LT(n(v),s.k0),GE(n(v),1),EQ(s.i(v),n(v)+1),LE(val(n(v)),s.T)))),
            G.every('above the tolerance',lambda v,g,f:(ZERO,s.i(v)),lambda v,g,f,q: Or(GE(q,n(v)),GT(val(q),s.T)))]
@spec_(k=KZ)
def solve_with_svd(c,k):
    """exactly the singular values above the tolerance are used (they come in decreasing order)"""
    k0=c.int('k0',1); ncol=c.int('columns',1); tol=c.real('tol'); o=c.out(); eps=P(Fraction(1,2**52)); T=Ite(LE(tol,0),eps,tol)
    for x in 'AB': c.st.mem[x]=Cells(x,16,'param'); c.st.mem[x].cells[0]=(8,ONE); c.st.mem[x].cells[8]=(8,(x,))
    c.st.mem['values']=Buf('values',8,'double',k0,init_content('sv','R'),1); D=c.vector('D','l'); c.assume(GE(D.n,1)); get=svd_roles(c,k,k0,D,ncol)
    class Q(Cut): pass
    Q.k0=k0; Q.T=T; c.ex.invs=[Q]; val=lambda q: Sel('sv',q,0,'R'); seen=set(); j=fresh('j')
    for st,_ in c.run('ssvd_'+k,[o,Ptr('A',0),Ptr('B',0),tol]):
        r,n=get(st,o); seen.add(r)
        if r=='zeros': c.prove(st,LE(val(ZERO),T),'the result is zero only without values above the tolerance'); continue
        ok=r=='result'; c.ex.log('product of the three factors',ok)
        if not ok: raise Failed('product of the three factors',r)
        c.prove(st,And(GE(n,1),LE(n,k0)),'some values are used'); c.prove(st,Implies(LT(n,k0),LE(val(n),T)),'no value above the tolerance is left out')
        c.prove(st,GT(val(j),T),'the values used are above the tolerance',st.facts.add(GE(j,0),LT(j,n)))
    ok=seen=={'zeros','result'}; c.ex.log('both cases occur',ok)
    if not ok: raise Failed('both cases occur')
