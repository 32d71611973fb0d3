from spec import *
from lapack import Lap,record
from blas import PRIMS_IO
TUS=['@c26']+['linalg/%s_%s.cc'%(f,x) for f in('block_svd','svd') for x in 'dz']+['tensor/tensor_d.cc','tensor/tensor_z.cc','tools/flags.cc','indices/indices.cc']
KZ=['d','z']
@spec('C26')
def replace_integer(c):
    n=c.int('n',0); a,b=c.int('a'),c.int('b'); c.st.mem['v']=Buf('v',8,'long',n,init_content('v','I'),1); v=lambda q: Sel('v',q,0,'I')
    for st,_ in c.run('replace',[n,Ptr('v',0),a,b]):
        q=c.int('q'); f=st.facts.add(GE(q,0),LT(q,n))
        if feasible(f): c.prove(st,EQ(read_content(c.ex,f,st.mem['v'].content,q,0),Ite(EQ(v(q),a),b,v(q))),'every occurrence is replaced, nothing else',f)
def log(fn):
    def g(ex,st,args,name): record(st,fn=fn,args=list(args),mem={a.obj:st.mem[a.obj] for a in args if isinstance(a,Ptr) and a.obj in st.mem},st=st.copy()); return [(st,'ret',TRUE if fn=='blocks' else None)]
    return g
def calls(st): return [o.d for o in st.mem.values() if isinstance(o,Lap)]
# find_blocks of a tall matrix is find_blocks of its transpose, with rows and columns exchanged
depth=[0]
@spec('C26',k=KZ)
def tall(c,k):
    A=c.tensor('A',k,2); c.assume(GT(A.d(0),A.d(1))); tol=c.real('tol'); name='bool linalg::find_blocks<%s >\\(.*\\)'%RX(TT(k))
    for x in('n','p','q'): c.st.mem[x]=Cells(x,8,'param')
    calls_=[0]
    def prim(ex,st,args,nm):
        a=args; T=TView(c,st,a[0]); T.shape([A.d(1),A.d(0)]); T.elems([A.d(1),A.d(0)],lambda i,j:i+A.d(1)*j,lambda cc,i,j:A.at(j+A.d(0)*i,cc),'the transposed matrix is searched')
        ok=[x.obj for x in a[1:4]]==['n','q','p']; c.ex.log('rows and columns are exchanged',ok)
        if not ok: raise Failed('rows and columns are exchanged')
        r=BApp('found'); calls_[0]+=1; return [(st,'ret',r)]
    c.ex.prims.insert(0,(re.compile(name),prim))
    fn=c.find(name); f=c.ex.prog.func(fn); c.ex.prog.func=(lambda g: lambda n: g(n))(c.ex.prog.func)
    for st,kind,r in c.ex.run_function(f,[A.ptr,Ptr('n',0),Ptr('p',0),Ptr('q',0),tol],c.st.copy()):
        if kind!='ret': raise Failed('returns')
        c.nret+=1; r=r if isinstance(r,Bool) else NE(r,0); c.prove(st,Iff(r,BApp('found')),'the answer is passed on')
    ok=calls_[0]>0; c.ex.log('the transposed matrix is searched once',ok)
    if not ok: raise Failed('the transposed matrix is searched')
def p_svd(k):
    def g(ex,st,args,name):
        o,a,u,v,e=args; st.mem['svd']=Cells('svd',8,'ghost'); st.mem['svd'].cells[0]=(8,[a,u,v,e]); T=st.mem[o.obj]
        return [(st,'ret',None)]
    return g
@spec('C26',k=KZ,why=['full','single'],u=[0,1],v=[0,1])
def plain_svd(c,k,why,u,v):
    """without block structure, or with square unitary factors of a rectangular matrix, the result is svd() of the matrix with the same options"""
    A=c.tensor('A',k,2); c.assume(GE(A.d(0),1),GE(A.d(1),1)); o=c.out(); U=c.tensor('U',k,mode='own') if u else None; V=c.tensor('V',k,mode='own') if v else None; hits=[]
    e=P(0)
    if why=='full': c.assume(NE(A.d(0),A.d(1)))
    else: e=c.int('e',0,2)
    def svd(ex,st,args,nm):
        o_,a,pu,pv,ec=args; T=TView(c,st,a); T.shape([A.d(0),A.d(1)]); T.elems([A.d(0),A.d(1)],lambda i,j:i+A.d(0)*j,lambda cc,i,j:A.at(i+A.d(0)*j,cc),'the matrix is decomposed')
        ok=pu==(U.ptr if u else NULL) and pv==(V.ptr if v else NULL); c.ex.log('the factors are passed on',ok)
        if not ok: raise Failed('the factors are passed on')
        b=lambda x: x if isinstance(x,Bool) else NE(x,0)
        c.prove(st,Iff(b(ec),b(e)),'the option is passed on'); hits.append(1)
        st.mem['res']=Buf('res',8,'double',Var('nres'),init_content('res','R'),1); st.mem['resd']=Buf('resd',8,'long',ONE,const_content(Var('nres')),1); w=st.w(o_.obj)
        w.abs[o_.off.const()]=AbsRef('res'); w.abs[o_.off.const()+8]=AbsRef('resd'); return [(st,'ret',None)]
    def none(ex,st,args,nm): return [(st,'ret',FALSE)]
    c.ex.prims.insert(0,(re.compile('linalg::svd\\(.*\\)'),svd)); c.assume(GE(Var('nres'),0))
    if why=='single': c.ex.prims.insert(0,(re.compile('bool linalg::find_blocks<.*'),none))
    for st,_ in c.run('bsvd_'+k,[o,A.ptr,U.ptr if u else NULL,V.ptr if v else NULL,e]):
        R=c.tview(st,o); q=c.int('q'); f=st.facts.add(GE(q,0),LT(q,Var('nres'))); R.data.len_is(Var('nres'),'number of values')
        c.prove(st,EQ(read_content(c.ex,f,R.data.buf.content,q,0),Sel('res',q,0,'R')),'the values are those of svd()',f)
    ok=bool(hits); c.ex.log('svd() is called',ok)
    if not ok: raise Failed('svd() is called')
# ------------------------------------------------ search of the blocks: row_block and col_block carry the label of the block
import given as G
from terms import exact_div
class Search(G.Inv):
    """outer loop: columns below J are done.  inner loop: rows below I of column J are done; curr is the label of the column.
       sig(r,c): the element counts as non-zero.  W(c): a row with sig, if the column has one (a function of the matrix).
       r0, c0: an arbitrary row and column.  s: number of labels in use = number of columns c < J with col_block[c] == c."""
    cells_change=True
    A=None; outer=None
    def match(s):
        ptr=[r for r,v in s.init.items() if isinstance(v,Ptr) and v.obj==s.A.data]
        if len(ptr)!=1: return False
        rb,cb=([i for i,o in s.st.mem.items() if isinstance(o,Buf) and i.startswith('longs') and o.n==x] for x in(s.N,s.M))
        if len(rb)!=1 or len(cb)!=1: return False
        s.rb,s.cb=rb[0],cb[0]; s.__class__.bufs=(cb[0],rb[0])
        s.p=ptr[0]; ints=[r for r,v in s.init.items() if isinstance(v,Poly) and s.ty[r]==('i',64)]; z=[r for r in ints if s.init[r]==ZERO]; fl=[r for r,v in s.init.items() if isinstance(v,Poly) and s.ty[r] in(('i',8),('i',1))]
        if not z: return False
        s.m={'i':z[0]}; oth=[r for r in ints if r!=z[0]]
        if s.outer is None:
            if oth or fl or P(s.init[s.p].off)!=ZERO: return False
            s.kind='outer'; return True
        if len(oth)!=1 or len(fl)!=1: return False
        s.kind='inner'; s.m.update(cur=oth[0],set=fl[0]); s.J=s.outer[0]; return True
    def i(s,v): return v.phi[s.m['i']]
    def esz(s): return s.A.esz
    def candidates(s,r):
        if r==s.p: return [lambda v,g: Ptr(s.A.data,(s.N*s.i(v) if s.kind=='outer' else s.N*s.J+s.i(v))*s.A.esz)]
        return []
    def writes(s): return [s.rb,s.cb]
    def nb(s,v): return v.st.mem['n'].cells[0][1]
    def ghosts0(s): return {'s':ZERO,'v':ZERO} if s.kind=='outer' else dict(s.outer[1])
    def pointwise(s,f,new,old,J,drop=None):
        """col_block' is col_block below J, as far as the labels that are their own column go, but for one that disappears"""
        q=fresh('q'); f=f.add(GE(q,0),LT(q,J)); one=lambda k,f: EQ(X_read(s.ex,f,k,q),q)
        a=one(new,f); b=one(old,f)
        goal=Iff(a,b) if drop is None else Iff(a,And(b,NE(q,drop)))
        return prove(f,goal) or G.by_cases(f,goal) or prove_deep(f,goal)
    def update(s,g,v,vp,f):
        new=vp.st.mem[s.cb].content
        if s.kind=='inner':
            old=v.st.mem[s.cb].content; k=s.cur(v); k2=s.cur(vp); n=g['v'] if prove(f,Not(s.sig(s.i(v),s.J))) or prove(f,NE(s.i(v),s.r0)) else s.J if prove(f,EQ(s.i(v),s.r0)) else Ite(EQ(s.i(v),s.r0),s.J,g['v'])
            if new is old: return {'s':g['s'],'v':n}
            if prove(f,EQ(k,s.J)) :     # no column carries the label of this one yet
                return {'s':g['s'] if s.pointwise(f,new,old,s.J) else fresh('s'),'v':n}
            if prove(f,And(GE(k,0),LT(k,s.J),EQ(X_read(s.ex,f,old,k),k))) and s.pointwise(f,new,old,s.J,k): return {'s':g['s']-1,'v':n}
            lt=LT(k,s.J)
            if s.pointwise(f.add(EQ(k,s.J)),new,old,s.J) and prove(f.add(NE(k,s.J)),And(GE(k,0),lt,EQ(X_read(s.ex,f.add(NE(k,s.J)),old,k),k))) and s.pointwise(f.add(NE(k,s.J)),new,old,s.J,k): return {'s':g['s']-Ite(EQ(k,s.J),0,1),'v':n}
            return {'s':fresh('s'),'v':n}
        n=[x for x in vp.st.notes if x[0]=='inner'][-1]; J=s.i(v)
        if not s.pointwise(f,new,n[3],J): return {'s':fresh('s'),'v':n[2]}
        return {'s':n[1]+Ite(EQ(X_read(s.ex,f,new,J),J),1,0),'v':n[2]}
    def cur(s,v): return v.phi[s.m['cur']]
    def set(s,v): return NE(v.phi[s.m['set']],0)
    def enter(s,st,v,g):
        if s.kind=='outer': s.__class__.outer=(s.i(v),g)
    def leave(s,o,g,v):
        st=o[1]
        if s.kind=='inner': st.notes=tuple(st.notes)+(('inner',g['s'],g['v'],st.mem[s.cb].content),)
        else: s.__class__.outer=None; st.notes=tuple(st.notes)+(('searched',g['s'],g['v'],st.mem[s.rb].content,st.mem[s.cb].content),)
    def variant(s,v,g): return (s.M if s.kind=='outer' else s.N)-s.i(v)
    def instances(s,v,g):
        J=s.i(v) if s.kind=='outer' else s.J; r=[GE(g['s'],0),Implies(s.sig(s.r0,J),s.sig(s.W(J),J))]
        return r+([Implies(s.sig(s.i(v),J),s.sig(s.W(J),J))] if s.kind=='inner' else [])
    def clauses(s):
        rb=lambda v,q,f: v.rd(s.rb,q,0,f); cb=lambda v,q,f: P(-1) if J(v)==ZERO else v.rd(s.cb,q,0,f); inn=s.kind=='inner'; J=(lambda v: s.J) if inn else s.i; own=lambda v,x,f: FALSE if x.is_const() and x.const()<0 else And(GE(x,0),LT(x,J(v)),EQ(cb(v,x,f),x))
        L=[G.fact('position',lambda v,g,f: And(GE(s.i(v),0),LE(s.i(v),s.N if inn else s.M),GE(J(v),0)))]
        L.append(G.every('labels of rows are in use',lambda v,g,f: (ZERO,s.N),lambda v,g,f,q: Or(EQ(rb(v,q,f),-1),own(v,rb(v,q,f),f),*([And(EQ(rb(v,q,f),s.J),EQ(s.cur(v),s.J),s.set(v))] if inn else []))))
        L.append(G.every('labels of columns are in use',lambda v,g,f: (ZERO,J(v)),lambda v,g,f,q: Or(EQ(cb(v,q,f),-1),own(v,cb(v,q,f),f))))
        L.append(G.fact('number of labels',lambda v,g,f: EQ(s.nb(v),g['s']-(Ite(EQ(s.cur(v),s.J),0,1) if inn else 0))))
        L.append(G.fact('a non-zero element has its row and column in one block',lambda v,g,f: Implies(And(LT(s.c0,J(v)),s.sig(s.r0,s.c0)),And(NE(rb(v,s.r0,f),-1),EQ(rb(v,s.r0,f),cb(v,s.c0,f))))))
        L.append(G.every('a column has a label when it has a non-zero element',lambda v,g,f: (ZERO,J(v)),lambda v,g,f,q: And(Implies(s.sig(s.W(q),q),And(NE(cb(v,q,f),-1),EQ(rb(v,s.W(q),f),cb(v,q,f)))),Implies(Not(s.sig(s.W(q),q)),EQ(cb(v,q,f),-1)))))
        L.append(G.fact('a row has a label only when it has a non-zero element',lambda v,g,f: Implies(NE(rb(v,s.r0,f),-1),And(GE(g['v'],0),(LE if inn else LT)(g['v'],J(v)),s.sig(s.r0,g['v'])))))
        if inn:
            L.append(G.fact('label of the column is in use',lambda v,g,f: And(Or(EQ(s.cur(v),s.J),own(v,s.cur(v),f)),Implies(Not(s.set(v)),EQ(s.cur(v),s.J)))))
            L.append(G.fact('the column is linked to the rows met',lambda v,g,f: Implies(And(EQ(s.c0,s.J),LT(s.r0,s.i(v)),s.sig(s.r0,s.c0)),And(s.set(v),NE(rb(v,s.r0,f),-1),EQ(rb(v,s.r0,f),s.cur(v))))))
            L.append(G.fact('the column is empty so far, or not',lambda v,g,f: And(Implies(And(LT(s.W(s.J),s.i(v)),s.sig(s.W(s.J),s.J)),And(s.set(v),EQ(rb(v,s.W(s.J),f),s.cur(v)))),Implies(s.set(v),s.sig(s.W(s.J),s.J)))))
        return L
def X_read(ex,f,content,q): return read_content(ex,f,content,q,0)
def search(c,k):
    A=c.tensor('A',k,2); N,M=A.d(0),A.d(1); c.assume(LE(N,M),GE(N,1)); tol=c.real('tol'); r0,c0=c.int('r0',0),c.int('c0',0); c.assume(LT(r0,N),LT(c0,M))
    for x in('n','p','q'): c.st.mem[x]=Cells(x,8,'param')
    c.ex.opaque_abs=True; fab=lambda x: App('fabs',x)
    sig=lambda r,q: GT(fab(A.at(r+N*q,0))+(fab(A.at(r+N*q,8)) if k=='z' else ZERO),tol); W=lambda q: Sel('W',q,0,'I')
    c.st.facts.axioms['nonneg:W']=True; c.st.facts.axioms['W']=lambda a:[GE(a.poly,0),LT(a.poly,N)]
    class S(Search): pass
    S.A=type('X',(),dict(data=A.ref.buf,esz=16 if k=='z' else 8)) if hasattr(A,'ref') else type('X',(),dict(data=A.name+'.data',esz=16 if k=='z' else 8)); S.N,S.M,S.r0,S.c0,S.sig,S.W=N,M,r0,c0,staticmethod(sig),staticmethod(W); S.bufs=[]
    def new(ex,st,a,nm):
        n=exact_div(a[0],P(8))
        if n is None: raise Unsupported('array of longs')
        i=newid('longs'); st.mem[i]=Buf(i,8,'long',n,undef_content()); return Ptr(i,0)
    def rename(ex,st,a,nm):      # the contract of replace_integer, proved above
        n,p,x,y=a; w=st.mem.get(p.obj)
        if not isinstance(w,Buf) or P(p.off)!=ZERO: raise Unsupported('renaming of a part of an array')
        ex.require(st,Or(LE(n,0),LE(n,w.n)),'renaming inside the array'); ex.check_writable(st,w); w=st.w(p.obj); q=fresh('q'); i=And(GE(q,0),LT(q,n)); old=read_content(ex,st.facts.add(i),w.content,q,0)
        w.content=Content(w.content,Eff('store',[(the_atom(q),n)],TRUE,q,0,Ite(EQ(old,x),y,old)))
    c.ex.prims[0:0]=[(re.compile('operator new\\[\\]\\(unsigned long\\)'),new),(re.compile('(linalg::)?replace_integer\\(.*\\)'),rename)]
    flag=Cells('@_ZN6tensor22TENSOR_DEBUG_BLOCK_SVDE',4,'param'); flag.cells[0]=(4,c.int('flag',0)); c.st.mem[flag.id]=flag
    c.ex.invs=[S]; return A,S,tol
@spec('C26',k=KZ)
def blocks_are_found(c,k):
    A,S,tol=search(c,k); N,M,r0,c0=S.N,S.M,S.r0,S.c0
    def cut(ex,st,a,nm):
        n=[x for x in st.notes if x[0]=='searched'][-1]; f=st.facts; rb=lambda q,f: X_read(ex,f,n[3],q); cb=lambda q,f: X_read(ex,f,n[4],q)
        c.prove(st,Implies(S.sig(r0,c0),And(NE(rb(r0,f),-1),EQ(rb(r0,f),cb(c0,f)))),'a non-zero element has its row and column in one block',f)
        c.prove(st,Implies(NE(rb(r0,f),-1),And(GE(n[2],0),LT(n[2],M),S.sig(r0,n[2]))),'a row in a block has a non-zero element',f)
        w=S.W(c0); c.prove(st,And(Iff(NE(cb(c0,f),-1),S.sig(w,c0)),Implies(S.sig(w,c0),EQ(rb(w,f),cb(c0,f)))),'a column in a block has a non-zero element',f)
        c.prove(st,EQ(st.mem['n'].cells[0][1],n[1]),'the number of blocks is the number of labels in use',f)
        return [(st,'abort','cut')]
    c.ex.prims[0:0]=[(re.compile('tensor::Flags::get\\(.*'),cut)]
    c.run('bool linalg::find_blocks<%s >\\(.*\\)'%RX(TT(k)),[A.ptr,Ptr('n',0),Ptr('p',0),Ptr('q',0),tol],expect='abort')
# ------------------------------------------------ lists of the rows and columns of every block
import refs
def array_at(ex,st,p):
    """element of one of the two arrays of index lists: its position behind the count kept at the front"""
    o=st.mem.get(p.obj) if isinstance(p,Ptr) else None
    if not(isinstance(o,Buf) and isinstance(p.obj,str) and p.obj.startswith('lists')): return None
    i=exact_div(p.off,P(8)); ex.require(st,And(GE(i,1),LT(i,o.n)),'list inside the array'); return i
def put(ex,st,p,i,v): b=st.w(p.obj); b.content=Content(b.content,Eff('store',(),TRUE,i,0,P(v)))
def l_ctor(ex,st,a,nm):
    i=array_at(ex,st,a[0])
    return refs.rp_ctor(ex,st,a,nm) if i is None else put(ex,st,a[0],i,0)
def l_assign(ex,st,a,nm):
    i=array_at(ex,st,a[0])
    if i is None: return refs.rp_assign(ex,st,a,nm)
    ok=prove(st.facts,EQ(read_content(ex,st.facts,st.mem[a[0].obj].content,i,0),0)); ex.log('a list is set once',ok)
    if not ok: raise Failed('a list is set once')
    r=refs.ref_at(st,a[1]); refs.acquire(st,r); put(ex,st,a[0],i,1); st.notes=tuple(st.notes)+(('list',a[0].obj,i,r.buf),); return a[0]
def l_begin(ex,st,a,nm):
    i=array_at(ex,st,a[0])
    if i is None: return refs.rp_begin(ex,st,a,nm)
    n=[x for x in st.notes if x[0]=='list' and x[1]==a[0].obj and x[2]==i]
    if len(n)!=1 or refs.live(ex,st,refs.AbsRef(n[0][3])).owners!=1: raise Unsupported('access to a list set earlier')
    return Ptr(n[0][3],0)
def header_of(f,names): return [b for b in f.blocks.values() if b.phis and {p.res for p in b.phis}==set(names)][0]
class Lists(G.Inv):
    """outer loop: columns below col are in a list.  inner loops: positions below i of one list have been looked at.
       t: number of labels not collected yet = number of columns q with col_block[q] == q.  p: position of the watched row or column"""
    cells_change=True
    S=None; outer=None
    def match(s):
        n=[x for x in s.st.notes if x[0]=='searched']
        if not n: return False
        ints=[r for r,v in s.init.items() if isinstance(v,Poly) and s.ty[r]==('i',64)]
        if len(ints)!=2 or len(s.init)!=2: return False
        H=header_of(s.f,s.init); cm=[i for i in H.ins if i.op=='icmp']
        i=[r for r in ints if any(r in str(x.a) for x in cm)]
        if len(i)!=1: return False
        s.I=i[0]; s.K=[r for r in ints if r!=i[0]][0]
        if s.init[s.K]!=ZERO: return False
        S=s.S; s.N,s.M=S.N,S.M; s.cb0,s.rb0,s.all=n[0][4],n[0][3],n[0][1]
        longs=[(i,o) for i,o in s.st.mem.items() if isinstance(o,Buf) and i.startswith('longs')]
        s.cb,s.rb=S.bufs; b=[i for i,o in longs if i not in(s.cb,s.rb)]
        if len(b)!=1: return False
        s.buf=b[0]
        if s.outer is None: s.kind='outer'; s.n=s.M; return True
        s.kind='rows' if any(x[0]=='list' for x in s.st.notes) else 'cols'
        s.src=s.rb if s.kind=='rows' else s.cb; s.n=s.N if s.kind=='rows' else s.M; s.src0=s.st.mem[s.src].content; s.col,s.L=s.outer; s.w=S.r0 if s.kind=='rows' else S.c0; s.w1=S.W(s.col) if s.kind=='rows' else s.col
        return True
    def i(s,v): return v.phi[s.I]
    def k(s,v): return v.phi[s.K]
    def arrays(s,v): return [i for i,o in v.st.mem.items() if isinstance(o,Buf) and isinstance(i,str) and i.startswith('lists')]
    def writes(s): return [s.buf]+([s.cb] if s.kind!='rows' else [])+(s.arrays(G.View(s.ex,s.st,{},None)) if s.kind=='outer' else [])
    def nb(s,v): return v.st.mem['n'].cells[0][1]
    def at(s,content,q,f): return read_content(s.ex,f,content,q,0)
    def ghosts0(s): return {'t':s.all} if s.kind=='outer' else {'p':ZERO}
    def update(s,g,v,vp,f):
        if s.kind!='outer':
            hit=EQ(s.i(v),s.w); return {'p':s.k(v) if prove(f,hit) else g['p'] if prove(f,Not(hit)) else Ite(hit,s.k(v),g['p'])}
        old,new=v.st.mem[s.cb].content,vp.st.mem[s.cb].content
        if new is old: return {'t':g['t']}
        q=fresh('q'); ff=f.add(GE(q,0),LT(q,s.M)); L=s.at(old,s.i(v),f); a,b=EQ(s.at(new,q,ff),q),And(EQ(s.at(old,q,ff),q),NE(q,L)); goal=Iff(a,b)
        ok=(prove(ff,goal) or G.by_cases(ff,goal)) and prove(f,And(GE(L,0),LT(L,s.M),EQ(s.at(old,L,f),L)))
        return {'t':g['t']-1 if ok else fresh('t')}
    def enter(s,st,v,g):
        if s.kind=='outer': s.__class__.outer=(s.i(v),s.at(v.st.mem[s.cb].content,s.i(v),v.f)); st.notes=tuple(x for x in st.notes if x[0] not in('list','listed'))
    def leave(s,o,g,v):
        st=o[1]
        if s.kind=='outer': s.__class__.outer=None
        else: st.notes=tuple(st.notes)+(('listed',s.kind,g['p']),)
    def variant(s,v,g): return s.n-s.i(v)
    def instances(s,v,g):
        if s.kind!='outer': return []
        C=v.st.mem[s.cb].content; x=s.at(C,s.i(v),v.f); y=fresh('y')      # t counts the columns that carry their own label: none when t is 0
        own=lambda x: And(GE(x,0),LT(x,s.M),EQ(s.at(C,x,v.f.add(GE(x,0),LT(x,s.M))),x))
        return [GE(g['t'],0),Implies(own(x),GE(g['t'],1)) if not(x.is_const() and x.const()<0) else TRUE,Or(EQ(g['t'],0),own(y)),Implies(s.S.sig(s.S.W(s.i(v)),s.i(v)),TRUE)]
    def clauses(s):
        n=s.n; L=[G.fact('position',lambda v,g,f: And(GE(s.i(v),0),LE(s.i(v),n),GE(s.k(v),0),LE(s.k(v),s.i(v))))]
        if s.kind=='outer':
            C=lambda v,q,f: s.at(v.st.mem[s.cb].content,q,f); C0=lambda q,f: s.at(s.cb0,q,f)
            L.append(G.fact('lists and labels left',lambda v,g,f: EQ(s.k(v)+g['t'],s.nb(v))))
            L.append(G.every('labels that are left are those found',lambda v,g,f:(ZERO,s.M),lambda v,g,f,q: Or(EQ(C(v,q,f),-1),EQ(C(v,q,f),C0(q,f)))))
            L.append(G.every('no label is left before the position',lambda v,g,f:(ZERO,s.i(v)),lambda v,g,f,q: EQ(C(v,q,f),-1)))
            L.append(G.every('the columns of one block are taken together',lambda v,g,f:(ZERO,s.M),lambda v,g,f,q: Implies(NE(C0(q,f),-1),Iff(EQ(C(v,q,f),-1),EQ(C(v,C0(q,f),f),-1)))))
            for x in s.arrays(G.View(s.ex,s.st,{},None)):
                L.append(G.every('one list for every label collected',lambda v,g,f:(ONE,1+s.nb(v)),lambda v,g,f,q,x=x: EQ(s.at(v.st.mem[x].content,q,f),Ite(LE(q,s.k(v)),1,0))))
            def ev(v,kind):
                w=[x for x in v.st.notes if x[0]=='list']; h=[x for x in v.st.notes if x[0]=='listed' and x[1]==kind]
                if not w: return None
                j=0 if kind=='cols' else 1; b=v.st.mem[w[j][3]]; return b.content,b.n,h[0][2],w[j][1],w[j][2]
            for kind,nn,src,w in(('cols',s.M,s.cb0,s.S.c0),('rows',s.N,s.rb0,s.S.r0)):
                lab=lambda v,f: C0(s.i(v)-1,f)
                def wrap(fn,kind=kind): return lambda v,g,f,*q: TRUE if ev(v,kind) is None else fn(v,f,ev(v,kind),*q)
                rng=lambda off,kind=kind: lambda v,g,f: (ZERO,ZERO if ev(v,kind) is None else ev(v,kind)[1]-off)
                L.append(G.fact(kind+': the list is the next one, in its own array, and not empty',wrap(lambda v,f,e,kind=kind: And(EQ(e[4],s.k(v)),GE(e[1],1),TRUE if e[3]==s.S.arr[kind](v) else FALSE))))
                L.append(G.every(kind+': members carry the label',rng(0),wrap(lambda v,f,e,q,nn=nn,src=src: And(GE(s.at(e[0],q,f),0),LT(s.at(e[0],q,f),nn),EQ(s.at(src,s.at(e[0],q,f),f),lab(v,f))))))
                L.append(G.every(kind+': members ascend',rng(1),wrap(lambda v,f,e,q: LT(s.at(e[0],q,f),s.at(e[0],q+1,f)))))
                L.append(G.fact(kind+': everything with the label is a member',wrap(lambda v,f,e,nn=nn,src=src,w=w: Implies(EQ(s.at(src,w,f),lab(v,f)),And(GE(e[2],0),LT(e[2],e[1]),EQ(s.at(e[0],e[2],f.add(GE(e[2],0),LT(e[2],e[1]))),w))))))
        else:
            B=lambda v,q,f: ZERO if s.k(v)==ZERO else s.at(v.st.mem[s.buf].content,q,f); S0=lambda q,f: s.at(s.src0,q,f); lab=s.L
            L.append(G.every('members carry the label',lambda v,g,f:(ZERO,s.k(v)),lambda v,g,f,q: And(GE(B(v,q,f),0),LT(B(v,q,f),s.i(v)),EQ(S0(B(v,q,f),f),lab))))
            L.append(G.every('members ascend',lambda v,g,f:(ZERO,s.k(v)-1),lambda v,g,f,q: LT(B(v,q,f),B(v,q+1,f))))
            L.append(G.fact('everything with the label is a member',lambda v,g,f: Implies(And(LT(s.w,s.i(v)),EQ(S0(s.w,f),lab)),And(GE(g['p'],0),LT(g['p'],s.k(v)),EQ(B(v,g['p'],f),s.w)))))
            L.append(G.fact('there is a member',lambda v,g,f: Implies(And(LT(s.w1,s.i(v)),EQ(S0(s.w1,f),lab)),GE(s.k(v),1))))
            if s.kind=='cols': L.append(G.every('the labels collected are erased',lambda v,g,f:(ZERO,s.M),lambda v,g,f,q: EQ(s.at(v.st.mem[s.cb].content,q,f),Ite(And(LT(q,s.i(v)),EQ(S0(q,f),lab)),-1,S0(q,f)))))
        return L
@spec('C26',k=KZ)
def blocks_are_listed(c,k):
    """after the search: one list of columns and one of rows for every label, complete, ascending and not empty"""
    A,S,tol=search(c,k)
    class T(Lists): pass
    S.checked_elsewhere=True      # by blocks_are_found
    T.S=S; c.ex.invs.append(T); old=c.ex.prims[0][1]
    S.arr={'cols':lambda v: v.st.mem['q'].cells[0][1].obj,'rows':lambda v: v.st.mem['p'].cells[0][1].obj}
    def new(ex,st,a,nm):
        if any(x[0]=='searched' for x in st.notes):
            n=exact_div(a[0],P(8))
            if n is not None and prove(st.facts,EQ(n,st.mem['n'].cells[0][1]+1)): i=newid('lists'); st.mem[i]=Buf(i,8,'long',n,undef_content()); return Ptr(i,0)
        return old(ex,st,a,nm)
    Rp='tensor::RefPointer<long>::'
    c.ex.prims[0:0]=[(re.compile('operator new\\[\\]\\(unsigned long\\)'),new),(re.compile('tensor::Flags::get\\(.*'),lambda ex,st,a,nm: ZERO),(re.compile(Rp+'RefPointer\\(\\)'),l_ctor),(re.compile(Rp+'operator=\\(.*\\)'),l_assign),(re.compile(Rp+'begin\\(\\)'),l_begin)]
    single=several=0
    for st,r in c.run('bool linalg::find_blocks<%s >\\(.*\\)'%RX(TT(k)),[A.ptr,Ptr('n',0),Ptr('p',0),Ptr('q',0),tol]):
        n=st.mem['n'].cells[0][1]; r=r if isinstance(r,Bool) else NE(r,0); p,q=(st.mem[x].cells[0][1] for x in 'pq')
        if p.obj is None: single+=1; c.prove(st,And(EQ(n,1),Not(r)),'no lists exactly when there is one block'); continue
        several+=1; c.prove(st,And(NE(n,1),r),'no lists exactly when there is one block'); f=st.facts; b=c.int('b')
        for x in(p,q): c.prove(st,And(EQ(x.off,8),Implies(And(GE(b,1),LE(b,n)),EQ(read_content(c.ex,f.add(GE(b,1),LE(b,n)),st.mem[x.obj].content,b,0),1))),'every block has its list',f)
    c.ex.log('both outcomes',bool(single and several))
    if not(single and several): raise Failed('both outcomes')
# ------------------------------------------------ the factors of the blocks are put together
def ghost(st,id,**d): o=Lap(id,8,'ghost'); o.d=d; st.mem[id]=o; return o
def g_int(nm,q): return Sel(nm,q,0,'I')
def tensor_of(ex,st,p):
    d,e=refs.ref_at(st,p),refs.ref_at(st,Ptr(p.obj,p.off+8)); r=st.mem[e.buf].n
    if not r.is_const(): raise Unsupported('tensor of unknown rank')
    return d.buf,[read_content(ex,st.facts,st.mem[e.buf].content,P(i),0) for i in range(r.const())]
def make_tensor(ex,st,p,kind,dims,content):
    for off in(0,8):
        q=Ptr(p.obj,p.off+off); old=st.mem[p.obj].abs.get(q.off.const())
        if old is not None: refs.set_ref(st,q,None); refs.release(ex,st,old)
    n=ONE
    for d in dims: n=n*d
    dc=undef_content()
    for i,d in enumerate(dims): dc=Content(dc,Eff('store',(),TRUE,P(i),0,P(d)))
    refs.set_ref(st,p,AbsRef(refs.new_buf(ex,st,kind,n,content))); refs.set_ref(st,Ptr(p.obj,p.off+8),AbsRef(refs.new_buf(ex,st,'long',P(len(dims)),dc)))
def at_point(points,rest=None):
    """content known at given positions only"""
    n='pt!%s'%newid('c')
    def f(i,c):
        r=Sel(n,i,c,'R')
        for q,v in reversed(points):
            if i==q: return v(c)
            r=Ite(EQ(i,q),v(c),r)
        return r
    return lam_content(f)
mn=lambda b: Ite(LT(g_int('nR',b),g_int('nC',b)),g_int('nR',b),g_int('nC',b))
off=lambda b: g_int('off',b)
class Assemble(G.Inv):
    """blocks below b are in place; row r0 lies in block BR(r0) at position PR(r0), column c0 in block BC(c0) at PC(c0), value k0 in block kb"""
    S=None
    def match(s):
        if not any(isinstance(o,Lap) and o.d.get('what')=='blocks' for o in s.st.mem.values()): return False
        ints=[r for r,v in s.init.items() if isinstance(v,Poly)]
        if len(ints)!=2 or len(s.init)!=2 or any(s.init[r]!=ZERO for r in ints) or s.S.inside: return False
        H=header_of(s.f,s.init); b=[r for r in ints if any(r in str(x.a) for x in H.ins if x.op=='icmp')]
        if len(b)!=1: return False
        s.B=b[0]; s.K=[r for r in ints if r!=b[0]][0]; S=s.S; s.out={k:refs.ref_at(s.st,p).buf for k,p in S.outs.items()}; return True
    def scratch(s):
        keep={p.obj for p in s.S.outs.values()}|{s.S.A.ptr.obj}
        return [oid for oid,o in s.st.mem.items() if isinstance(o,Cells) and not isinstance(o,Lap) and o.abs and oid not in keep and not any(s.st.mem[r.buf].owners!=1 for r in o.abs.values())]
    def b(s,v): return v.phi[s.B]
    def k(s,v): return v.phi[s.K]
    def writes(s): return list(s.out.values())
    def enter(s,st,v,g): s.S.inside=True; s.S.b=s.b(v)
    def leave(s,o,g,v): s.S.inside=False
    def variant(s,v,g): return s.S.nb-s.b(v)
    def instances(s,v,g): return s.S.about(s.b(v))+s.S.about(s.k(v),only_mul=True)
    def clauses(s):
        S=s.S; X=lambda v,k,q,cc,f: v.rd(s.out[k],q,cc,f); b=s.b
        L=[G.fact('position',lambda v,g,f: And(GE(b(v),0),LE(b(v),S.nb),EQ(s.k(v),off(b(v)))))]
        L.append(G.fact('values',lambda v,g,f: EQ(X(v,'s',S.k0,0,f),Ite(LT(S.kb,b(v)),App('sv',S.kb,S.k0-off(S.kb)),0))))
        for kk in S.outs:
            if kk!='s': L.append(G.fact('factor '+kk,lambda v,g,f,kk=kk: And(*[EQ(X(v,kk,S.at(kk),cc,f),S.factor(kk,cc,b(v))) for cc in S.comps])))
        return L
@spec('C26',k=KZ,w=['tall','wide','square'],u=[0,1],v=[0,1])
def blocks_are_assembled(c,k,w,u,v):
    A=c.tensor('A',k,2); rows,cols=A.d(0),A.d(1); c.assume(GE(rows,1),GE(cols,1)); o=c.out(); kd={'d':'double','z':'cdouble'}[k]
    U=c.tensor('U',k,mode='own') if u else None; V=c.tensor('V',k,mode='own') if v else None
    e=int(w!='square'); mr=cols if w=='tall' else rows; c.assume(GE(rows,cols) if w=='tall' else LE(rows,cols) if w=='wide' else EQ(rows,cols))
    nb=c.int('nb',0); c.assume(NE(nb,1)); r0,c0,kk=c.int('r0',0),c.int('c0',0),c.int('kk',0); c.assume(LT(r0,rows),LT(c0,cols),LT(kk,mr))
    k0=g_int('ndx',kk); kb=c.int('kb',0); c.assume(GE(k0,0),LT(k0,mr),LE(kb,nb))
    class S: pass
    S.A=A; S.inside=False; S.nb=nb; S.k0=k0; S.kb=kb; S.comps=comps_of(kd); S.outs={'s':o,**({'U':U.ptr} if u else {}),**({'V':V.ptr} if v else {})}; S.b=None
    S.at=lambda x: r0+rows*k0 if x=='U' else k0+mr*c0
    own={'U':g_int('BR',r0),'V':g_int('BC',c0)}; pos={'U':g_int('PR',r0),'V':g_int('PC',c0)}
    def el(x,b,cc): return App('UT.%d'%cc,b,pos['U'],k0-off(b)) if x=='U' else App('VT.%d'%cc,b,k0-off(b),pos['V'])
    S.factor=lambda x,cc,b: Ite(And(EQ(own[x],kb),LT(kb,b)),el(x,kb,cc),0)
    RL=lambda b,q: App('RL',b,q,sort='I'); CL=lambda b,q: App('CL',b,q,sort='I'); single=lambda b: A.at(RL(b,ZERO)+rows*CL(b,ZERO),0)
    def mods(b): return [A.at(RL(b,ZERO)+rows*CL(b,ZERO),cc) for cc in S.comps]
    def mul(x,y,n):      # consequences of x <= y + d for multiples of n
        out=[]
        for d in(-1,0,1):
            for a,z in((GE(x-y,d),GE(n*(x-y),n*d)),(LE(x-y,d),LE(n*(x-y),n*d))):
                if prove(Facts().add(GE(n,0),a),z): out.append(Implies(a,z))
        return out
    def about(b,only_mul=False):
        """the contract of the lists of rows and columns (blocks_are_found, blocks_are_listed), at block b and at the watched row, column and value"""
        if only_mul: return mul(k0,b,rows)+mul(b,k0,rows)
        nR,nC=g_int('nR',b),g_int('nC',b); one=EQ(nR*nC,1); x=mods(b); md=App('modulus',*x); inn=And(GE(b,0),LT(b,nb)); row,col=RL(b,ZERO),CL(b,ZERO)
        L=[GE(nR,1),GE(nC,1),GE(nR*nC,nR),GE(nR*nC,nC),LE(nR,rows),LE(nC,cols),GE(row,0),LT(row,rows),GE(col,0),LT(col,cols),EQ(off(b+1),off(b)+mn(b)),GE(off(b),0),LE(off(b+1),mr),
           Iff(EQ(kb,b),And(GE(k0,off(b)),LT(k0,off(b+1)))),EQ(g_int('BR',row),b),EQ(g_int('PR',row),0),EQ(g_int('BC',col),b),EQ(g_int('PC',col),0),
           Implies(EQ(own['U'],b),And(GE(pos['U'],0),LT(pos['U'],nR),EQ(RL(b,pos['U']),r0))),Implies(EQ(own['V'],b),And(GE(pos['V'],0),LT(pos['V'],nC),EQ(CL(b,pos['V']),c0))),
           Implies(And(EQ(own['U'],b),EQ(nR,1)),EQ(row,r0)),Implies(And(EQ(own['V'],b),EQ(nC,1)),EQ(col,c0)),Implies(EQ(row,r0),EQ(own['U'],b)),Implies(EQ(col,c0),EQ(own['V'],b)),Implies(EQ(row,r0),EQ(pos['U'],0)),Implies(EQ(col,c0),EQ(pos['V'],0)),
           GE(md,0),NE(md,0)]      # the element of a block of one element is not zero
        # a block of one element is its own decomposition:  1 * |x| * (x/|x|)
        z=k0-off(b); L+=[Implies(And(one,EQ(z,0)),And(EQ(App('sv',b,z),md),EQ(App('UT.0',b,pos['U'],z),1),*([EQ(App('UT.8',b,pos['U'],z),0)] if k=='z' else []),*[EQ(App('VT.%d'%cc,b,z,pos['V']),y*Inv(md)) for cc,y in zip(S.comps,x)]))]
        L=[Implies(inn,y) for y in L]
        return L+[EQ(off(ZERO),0)]+mul(k0,off(b),rows)+mul(c0,col,mr)
    S.about=about
    class Q(Assemble): pass
    Q.S=S; c.ex.invs=[Q]
    # ---- contracts of the functions called
    def find(ex,st,a,nm):
        for i,x in((1,None),(2,'R'),(3,'C')):
            w=st.w(a[i].obj); kx=a[i].off.const()
            if x is None: w.cells[kx]=(8,nb); continue
            l='lists'+x; st.mem[l]=Buf(l,8,'long',nb+1,Content(lam_content(lambda i,cc: ONE),Eff('store',(),TRUE,ZERO,0,nb))); w.cells[kx]=(8,Ptr(l,8))
        ghost(st,newid('blocks'),what='blocks'); return [(st,'ret',TRUE)]
    def elem(ex,st,p):
        i=array_at(ex,st,p)
        if i is None: return None
        x=p.obj[5]; b=i-1; id='list:%s:%s'%(x,show(b))
        if id not in st.mem: st.mem[id]=Buf(id,8,'long',g_int('n'+x,b),lam_content(lambda q,cc: (RL if x=='R' else CL)(b,q)),2); ghost(st,'of:'+id,list=x,b=b)
        return AbsRef(id)
    def copy(ex,st,a,nm):
        r=elem(ex,st,a[1])
        if r is None: return refs.rp_copy(ex,st,a,nm)
        refs.acquire(st,r); refs.set_ref(st,a[0],r)
    def deref(fn):
        def g(ex,st,a,nm):
            r=elem(ex,st,a[0])
            if r is None: return fn(ex,st,a,nm)
            t=st.copy(); return Ptr(r.buf,0) if fn is refs.rp_cbegin else st.mem[r.buf].n
        return g
    def dtor(ex,st,a,nm):
        if array_at(ex,st,a[0]) is None: return refs.rp_dtor(ex,st,a,nm)
    def rng(**d):
        def g(ex,st,a,nm):
            id=newid('range'); dd=dict(d)
            if 'idx' in d: r=refs.ref_at(st,a[0]); dd=dict(idx=r.buf,of=st.mem['of:'+r.buf].d if 'of:'+str(r.buf) in st.mem else None)
            if 'span' in d: dd=dict(span=(a[0],a[1]))
            ghost(st,id,**dd); return Ptr(id,0)
        return g
    def view(ex,st,a,nm): ghost(st,'view:%s:%s'%(a[0].obj,show(a[0].off)),src=a[1],rs=[st.mem[x.obj].d for x in a[2:]])
    def is_ndx(d): return d.get('idx') is not None and st_ndx(d)
    st_ndx=lambda d: str(d['idx']) in S.ndx
    S.ndx=set()
    def to_tensor(ex,st,a,nm):
        d=st.mem['view:%s:%s'%(a[1].obj,show(a[1].off))].d; buf,dims=tensor_of(ex,st,d['src']); src=st.mem[buf].content; rs=d['rs']
        def fits(q,n): ex.require(st,EQ(q,n),'view of the whole')
        if len(rs)==2 and all(r.get('of') for r in rs):
            b=rs[0]['of']['b']; ok=[r['of']['list'] for r in rs]==['R','C'] and rs[1]['of']['b']==b and buf==refs.ref_at(st,A.ptr).buf; ex.log('rows and columns of one block',ok)
            if not ok: raise Failed('rows and columns of one block')
            ex.require(st,And(GE(b,0),LT(b,nb)),'the block exists'); nR,nC=g_int('nR',b),g_int('nC',b)
            ct=at_point([(ZERO,lambda cc: read_content(ex,st.facts,src,RL(b,ZERO)+rows*CL(b,ZERO),cc))]); make_tensor(ex,st,a[0],kd,[nR,nC],ct); ghost(st,newid('block'),what='block',content=ct,b=b); return
        kind=st.mem[buf].kind; f=st.facts
        if len(rs)==1 and is_ndx(rs[0]): make_tensor(ex,st,a[0],kind,[mr],at_point([(kk,lambda cc: read_content(ex,f,src,k0,cc))])); return
        if len(rs)==2 and 'full' in rs[0] and is_ndx(rs[1]):
            ex.require(st,And(EQ(dims[0],rows),LE(mr,dims[1])),'left factor'); make_tensor(ex,st,a[0],kind,[dims[0],mr],at_point([(r0+rows*kk,lambda cc: read_content(ex,f,src,r0+rows*k0,cc))])); return
        if len(rs)==2 and 'full' in rs[1] and is_ndx(rs[0]):
            ex.require(st,And(EQ(dims[1],cols),EQ(dims[0],mr)),'right factor'); make_tensor(ex,st,a[0],kind,[mr,dims[1]],at_point([(kk+mr*c0,lambda cc: read_content(ex,f,src,k0+mr*c0,cc))])); return
        raise Unsupported('view')
    def svd(ex,st,a,nm):
        o_,m,pu,pv,ec=a; mb,md=tensor_of(ex,st,m); h=[x.d for x in st.mem.values() if isinstance(x,Lap) and x.d.get('what')=='block' and x.d['content'] is st.mem[mb].content]
        ok=len(h)==1; ex.log('one block is decomposed',ok)
        if not ok: raise Failed('one block is decomposed')
        b=h[0]['b']; x=ec if isinstance(ec,Bool) else NE(ec,0)
        for f_,on in((pu,u),(pv,v)):
            if (f_.obj is not None)!=bool(on): raise Failed('factors are asked for as requested')
        ex.require(st,Or(x,EQ(md[0],md[1])),'as many vectors as values'); n=mn(b); cs=[]
        for t,nm_,dims,kn in((o_,'s',[n],'double'),(pu,'U',[g_int('nR',b),n],kd),(pv,'V',[n,g_int('nC',b)],kd)):
            if t.obj is None: continue
            ct=init_content('%s!%s'%(nm_,newid('svd')),'R'); make_tensor(ex,st,t,kn,dims,ct); ghost(st,newid('part'),what='part',content=ct,part=nm_,b=b)
    def put_view(ex,st,a,nm):
        d=st.mem['view:%s:%s'%(a[0].obj,show(a[0].off))].d; buf,dims=tensor_of(ex,st,d['src']); sb,sd=tensor_of(ex,st,a[1]); rs=d['rs']
        h=[x.d for x in st.mem.values() if isinstance(x,Lap) and x.d.get('what')=='part' and x.d['content'] is st.mem[sb].content]
        which=[x for x,p in S.outs.items() if p==d['src']]
        ok=len(h)==1 and which==[h[0]['part']]; ex.log('a part of the decomposition is put into its result',ok)
        if not ok: raise Failed('a part of the decomposition is put into its result')
        which=which[0]; b=h[0]['b']; sp=[r for r in rs if 'span' in r]; li=[r for r in rs if r.get('of')]
        ok=len(sp)==1 and len(rs)==(1 if which=='s' else 2) and (which=='s' or len(li)==1 and li[0]['of']==dict(list='R' if which=='U' else 'C',b=b) and rs.index(li[0])==(0 if which=='U' else 1)); ex.log('at the rows or columns of the block',ok)
        if not ok: raise Failed('at the rows or columns of the block')
        lo,hi=sp[0]['span']; ax=1 if which=='U' else 0
        ex.require(st,And(GE(lo,0),LE(lo,hi),LT(hi,dims[ax]),EQ(hi-lo+1,mn(b))),'the positions fit')
        if which=='U': ex.require(st,EQ(dims[0],rows),'rows of the left factor')
        if which=='V': ex.require(st,And(EQ(dims[1],cols),EQ(dims[0],mr)),'columns of the right factor')
        w=st.w(buf); ex.check_writable(st,w); old=w.content; f=st.facts; here=And(GE(k0,lo),LE(k0,hi)); z=k0-lo
        if which=='s': w.content=at_point([(k0,lambda cc: Ite(here,App('sv',b,z),read_content(ex,f,old,k0,cc)))])
        else:
            q=S.at(which); t=lambda cc: App('UT.%d'%cc,b,pos['U'],z) if which=='U' else App('VT.%d'%cc,b,z,pos['V'])
            w.content=at_point([(q,lambda cc: Ite(And(here,EQ(own[which],b)),t(cc),read_content(ex,f,old,q,cc)))])
    def sort(ex,st,a,nm):
        sb,sd=tensor_of(ex,st,a[1]); ok=d_of(a[1])=='s' and (a[2] is TRUE or a[2]==ONE); ex.log('the values are sorted, largest first',ok)
        if not ok: raise Failed('the values are sorted, largest first')
        ex.require(st,EQ(sd[0],mr),'all values are sorted'); id=refs.new_buf(ex,st,'long',mr,lam_content(lambda q,cc: g_int('ndx',q))); refs.set_ref(st,a[0],AbsRef(id)); S.ndx.add(id)
    d_of=lambda p: ([x for x,q in S.outs.items() if q==p]+[None])[0]
    T=RX(TT(k)); Rp='tensor::RefPointer<long>::'; TR='tensor::Tensor<[^()]*>::'
    modulus=lambda ex,st,a,nm: App('modulus',*a)
    c.ex.prims[0:0]=[(re.compile(p),f) for p,f in[('bool linalg::find_blocks<.*',find),('linalg::svd\\(.*\\)',svd),(Rp+'RefPointer\\(tensor::RefPointer<.*> const&\\)',copy),(Rp+'begin(_const)?\\(\\) const',deref(refs.rp_cbegin)),(Rp+'size\\(\\) const',deref(refs.rp_size)),(Rp+'~RefPointer\\(\\)',dtor),
        ('tensor::range\\(tensor::Indices\\)',rng(idx=1)),('tensor::range\\(long, long\\)',rng(span=1)),('tensor::range\\(\\)',rng(full=1)),(TR+'(operator\\(\\)|at)\\(tensor::PRange(, tensor::PRange)?\\)( const)?',view),(TR+'view::operator tensor::Tensor<.*>\\(\\) const',to_tensor),
        (TR+'(view::~view|mutable_view::~mutable_view)\\(\\)',lambda ex,st,a,nm: None),(TR+'mutable_view::operator=\\(tensor::Tensor<.*> const&\\)',put_view),('tensor::sort_indices\\(.*\\)',sort),('std::abs\\(double\\)|fabs|hypot|cabs',modulus)]]
    for st,_ in c.run('bsvd_'+k,[o,A.ptr,U.ptr if u else NULL,V.ptr if v else NULL,P(e)]):
        rd=lambda p,q,cc: read_content(c.ex,st.facts,st.mem[refs.ref_at(st,p).buf].content,q,cc)
        Tv=c.tview(st,o); Tv.shape([mr]); c.prove(st,EQ(rd(o,kk,0),Ite(LT(kb,nb),App('sv',kb,k0-off(kb)),0)),'values of the blocks, sorted')
        for x,X_,q,dims in(('U',U,r0+rows*kk,[rows,mr]),('V',V,kk+mr*c0,[mr,cols])):
            if X_ is None: continue
            c.tview(st,X_.ptr).shape(dims)
            for cc in S.comps: c.prove(st,EQ(rd(X_.ptr,q,cc),S.factor(x,cc,nb)),'factor '+x)
