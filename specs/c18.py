from sparsespec import *
TUS=['@c18','sparse/sparse_d.cc','sparse/sparse_z.cc','tensor/tensor_d.cc','tensor/tensor_z.cc','indices/indices.cc']
K=lambda a,b: 'z' if 'z' in (a,b) else 'd'
def num(c,k,name='b'):
    if k=='d': b=c.real(name); return b,[b],b
    p=c.zref(name); re,im=Var(name+'.0','R'),Var(name+'.8','R'); return p,[p],(re,im)
@spec('C18',k=['d','z'])
def negation(c,k):
    S=sparse(c,'S',k); o=c.out(size=40)
    for st,_ in c.run('neg_'+k,[o,S.ptr]): SpView(c,st,o).like(S,lambda cc,i:-S.at(i,cc))
@spec('C18',op=['mul','lmul','div'],k=['d','z'],b=['d','z'])
def scalar(c,op,k,b):
    S=sparse(c,'S',k); p,args,v=num(c,b); o=c.out(size=40)
    if op=='div': c.assume(NE(v,0) if b=='d' else Or(NE(v[0],0),NE(v[1],0)))
    re=lambda i:S.at(i,0); im=lambda i:S.at(i,8) if k=='z' else ZERO
    def val(cc,i):
        if b=='d': x=S.at(i,cc) if k=='z' or cc==0 else ZERO; return x*Inv(v) if op=='div' else x*v
        if op=='div': return cdiv([re(i),im(i)],v)[cc//8]
        return re(i)*v[0]-im(i)*v[1] if cc==0 else re(i)*v[1]+im(i)*v[0]
    for st,_ in c.run('%s_%s_%s'%(op,k,b),[o,S.ptr]+args): SpView(c,st,o).like(S,val)
@spec('C18',op=['add','sub','tim'],kk=['dd','zz','dz','zd'],d=[0,1])
def different_dimensions(c,op,kk,d):
    A=sparse(c,'A',kk[0]); B=sparse(c,'B',kk[1]); c.assume(NE(A.R,B.R) if d==0 else NE(A.C,B.C))
    c.run('%s_%s_%s'%(op,kk[0],kk[1]),[c.out(size=40),A.ptr,B.ptr],expect='abort')
@spec('C18',op=['add','sub','tim'],kk=['dd','zz','dz','zd'],d=[0,1])
def empty(c,op,kk,d):
    A=sparse(c,'A',kk[0]); B=sparse(c,'B',kk[1]); c.assume(EQ(A.R,B.R),EQ(A.C,B.C),EQ(A.C if d else A.R,0)); o=c.out(size=40)
    for st,_ in c.run('%s_%s_%s'%(op,kk[0],kk[1]),[o,A.ptr,B.ptr]):
        R=SpView(c,st,o); R.shape(A.R,A.C,0); R.rs.elems([A.R+1],lambda i:i,lambda cc,i:ZERO,'row offsets')
def truth(v): return v if isinstance(v,Bool) else NE(P(v),0)
@spec('C18',k=['d','z'])
def equal_means_same_parts(c,k):
    A=sparse(c,'A',k); B=sparse(c,'B',k)
    for st,v in c.run('eq_'+k,[A.ptr,B.ptr]):
        q=fresh('q'); f=st.facts.add(truth(v),GE(q,0))
        if not feasible(f): continue
        c.prove(st,And(EQ(A.R,B.R),EQ(A.C,B.C),EQ(A.N,B.N)),'equal dimensions',f)
        c.prove(st,Implies(LE(q,A.R),EQ(A.rs(q),B.rs(q))),'equal row offsets',f); g=f.add(LT(q,A.N))
        if feasible(g):
            c.prove(st,EQ(A.co(q),B.co(q)),'equal columns',g)
            for cc in A.comps: c.prove(st,EQ(A.at(q,cc),B.at(q,cc)),'equal values',g)
@spec('C18',k=['d','z'])
def same_parts_are_equal(c,k):
    A=sparse(c,'A',k); B=sparse(c,'B',k); q=fresh('q')
    c.assume(EQ(A.R,B.R),EQ(A.C,B.C),EQ(A.N,B.N),Forall((q,),Implies(And(GE(q,0),LE(q,A.R)),EQ(A.rs(q),B.rs(q)))),Forall((q,),Implies(And(GE(q,0),LT(q,A.N)),And(EQ(A.co(q),B.co(q)),*[EQ(A.at(q,cc),B.at(q,cc)) for cc in A.comps]))))
    for st,v in c.run('eq_'+k,[A.ptr,B.ptr]): c.prove(st,truth(v),'matrices with the same parts are equal')
# ------------------------------------------------ the merge of two rows: loop with a given invariant
import given as G
from terms import exact_div
class Merge(G.Inv):
    """cursors: r rows are complete, p and q entries of A and B are used, o entries are written; last column of the current row
       that was used, w position of the entry (i0,j0) once it is written"""
    A=B=None
    def ptrs(s,pred): return [r for r,v in s.init.items() if isinstance(v,Ptr) and v.obj in s.st.mem and pred(v.obj,s.st.mem[v.obj])]
    def match(s):
        A,B=s.A,s.B; n=A.name; m=B.name
        a=s.ptrs(lambda i,o: i in s.bufs[n,'co']+s.bufs[n,'da']); b=s.ptrs(lambda i,o: i in s.bufs[m,'co']+s.bufs[m,'da'])
        r=s.ptrs(lambda i,o: i in s.bufs[n,'rs']+s.bufs[m,'rs'])
        mine=lambda i: not any(i in x for x in s.bufs.values())
        od=s.ptrs(lambda i,o: isinstance(o,Buf) and mine(i) and o.kind in('double','cdouble') and (o.n==A.N+B.N or prove(s.st.facts,EQ(o.n,A.N+B.N))))
        oc=s.ptrs(lambda i,o: isinstance(o,Buf) and mine(i) and o.kind=='long' and prove(s.st.facts,EQ(o.n,A.N+B.N)) and not prove(s.st.facts,EQ(o.n,A.R+1)))
        orr=s.ptrs(lambda i,o: isinstance(o,Buf) and mine(i) and o.kind=='long' and o.n==A.R+1)
        if not(a and b and r and od and oc and orr): return False
        s.m={'p':a[0],'q':b[0],'r':r[0],'o':od[0]}; s.od,s.oc,s.ors=(s.init[x[0]].obj for x in(od,oc,orr)); return True
    def cur(s,v,k):
        n=s.m[k]; i=s.init[n]; e=s.st.mem[i.obj].esz
        x=exact_div(v.phi[n].off-i.off,P(e))
        if x is None: raise Unsupported('cursor')
        return x
    def candidates(s,r):
        A,B=s.A,s.B; i=s.init[r]
        if isinstance(i,Ptr) and i.obj in s.st.mem:
            e=s.st.mem[i.obj].esz
            return [(lambda v,g,k=k: Ptr(i.obj,i.off+s.cur(v,k)*e)) for k in s.m]
        if isinstance(i,Poly) and s.ty[r][0]=='i':
            c=[lambda v,k=k: s.cur(v,k) for k in s.m]+[lambda v,d=d: A.R-s.cur(v,'r')-d for d in(0,1)]
            for M,k in((A,'p'),(B,'q')): c+=[lambda v,M=M,k=k: M.rs(s.cur(v,'r')+1)-s.cur(v,k),lambda v,M=M: M.rs(s.cur(v,'r')+1),lambda v,M=M: M.rs(s.cur(v,'r'))]
            return [(lambda v,g,x=x: x(v)) for x in c]
        return []
    def writes(s): return [s.od,s.oc,s.ors]
    def instances(s,v,g):      # the columns of a row increase: the entry in hand and the next one of the row
        r=s.cur(v,'r'); return [Implies(And(GE(c,M.rs(r)),LT(c+1,M.rs(r+1))),LT(M.co(c),M.co(c+1))) for M,c in((s.A,s.cur(v,'p')),(s.B,s.cur(v,'q')))]
    def ghosts0(s): return {'last':P(-1),'w':P(0)}
    def update(s,g,v,vp,facts):
        p,q,o=(s.cur(v,k) for k in 'pqo'); p1,q1,o1=(s.cur(vp,k) for k in 'pqo')
        def pick(c,a,b): return a() if prove(facts,c) else b() if prove(facts,Not(c)) else Ite(c,a(),b())
        last=pick(GT(p1,p),lambda: s.A.co(p),lambda: pick(GT(q1,q),lambda: s.B.co(q),lambda: P(-1)))
        w=pick(And(EQ(s.cur(v,'r'),s.i0),EQ(last,s.j0),GT(o1,o)),lambda: o,lambda: g['w'])
        return {'last':last,'w':w}
    def leave(s,o,g,v): o[1].notes=tuple(o[1].notes)+(('merge',g['w']),)
    def variant(s,v,g): return s.A.R-s.cur(v,'r')+s.A.N-s.cur(v,'p')+s.B.N-s.cur(v,'q')
    def clauses(s):
        A,B,i0,j0=s.A,s.B,s.i0,s.j0; c=s.cur
        R=lambda v: c(v,'r'); O=lambda v: c(v,'o')
        oc=lambda v,i,f: v.rd(s.oc,i,0,f); ors=lambda v,i,f: v.rd(s.ors,i,0,f)
        end=lambda v,f: O(v) if prove(f,EQ(R(v),i0)) else ors(v,i0+1,f)
        L=[G.fact('rows in range',lambda v,g,f: And(GE(R(v),0),LT(R(v),A.R)))]
        for M,k in((A,'p'),(B,'q')):
            L.append(G.fact('entries used of '+M.name,lambda v,g,f,M=M,k=k: And(LE(M.rs(R(v)),c(v,k)),LE(c(v,k),M.rs(R(v)+1)))))
            L.append(G.fact('columns still to come of '+M.name,lambda v,g,f,M=M,k=k: Implies(LT(c(v,k),M.rs(R(v)+1)),LT(g['last'],M.co(c(v,k))))))
        L.append(G.fact('entries written',lambda v,g,f: And(GE(O(v),0),LE(O(v),c(v,'p')+c(v,'q')))))
        L.append(G.fact('last column',lambda v,g,f: And(GE(g['last'],-1),LT(g['last'],A.C))))
        L.append(G.every('columns written in this row',lambda v,g,f: (ors(v,R(v),f),O(v)),lambda v,g,f,q: LE(oc(v,q,f),g['last'])))
        L.append(G.fact('first row offset',lambda v,g,f: EQ(ors(v,ZERO,f),0)))
        L.append(G.every('row offsets bounded',lambda v,g,f: (ZERO,R(v)+1),lambda v,g,f,q: And(GE(ors(v,q,f),0),LE(ors(v,q,f),O(v)))))
        L.append(G.every('row offsets in order',lambda v,g,f: (ZERO,R(v)),lambda v,g,f,q: LE(ors(v,q,f),ors(v,q+1,f))))
        L.append(G.every('columns in range',lambda v,g,f: (ZERO,O(v)),lambda v,g,f,q: And(GE(oc(v,q,f),0),LT(oc(v,q,f),A.C))))
        for nm,wh in(('this row',lambda v,g,f: EQ(R(v),i0)),('a complete row',lambda v,g,f: GT(R(v),i0))):
            L.append(G.every('columns increase in '+nm,lambda v,g,f: (ors(v,i0,f),end(v,f)-1),lambda v,g,f,q: LT(oc(v,q,f),oc(v,q+1,f)),wh))
            when=(lambda v,g,f: And(EQ(R(v),i0),GE(g['last'],j0))) if nm=='this row' else wh
            if s.zero is not True: L.append(G.fact('entry written, '+nm,lambda v,g,f: Implies(s.nz,And(LE(ors(v,i0,f),g['w']),LT(g['w'],end(v,f)),EQ(oc(v,g['w'],f),j0),*[EQ(v.rd(s.od,g['w'],cc,f),s.v[cc//8]) for cc in s.comps])),when))
            L.append(G.every('no entry for zero, '+nm,lambda v,g,f: (ors(v,i0,f),end(v,f)),lambda v,g,f,q: Implies(Not(s.nz),NE(oc(v,q,f),j0)),wh))
        for M,k,t in((A,'p',s.t[0]),(B,'q',s.t[1])):
            if t is not None:
                L.append(G.fact('entry of %s used'%M.name,lambda v,g,f,M=M,k=k,t=t: And(Implies(LE(c(v,k),t),LT(g['last'],j0)),Implies(GT(c(v,k),t),GE(g['last'],j0))),lambda v,g,f: EQ(R(v),i0)))
        return L
@spec('C18',op=['add','sub','tim'],kk=['dd','zz','dz','zd'],have=['neither','first','second','both'])
def merge(c,op,kk,have):
    """entry (i0,j0) of the result, for A and B with or without an entry there"""
    A=sparse(c,'A',kk[0]); B=sparse(c,'B',kk[1]); c.assume(EQ(A.R,B.R),EQ(A.C,B.C),GE(A.R,1),GE(A.C,1)); k='z' if 'z' in kk else 'd'
    i0,j0=c.int('i0'),c.int('j0'); c.assume(GE(i0,0),LT(i0,A.R),GE(j0,0),LT(j0,A.C))
    ts=[]; vs=[]
    for M,h in((A,have in('first','both')),(B,have in('second','both'))):
        q=fresh('q')
        if h:
            t=c.int('t'+M.name); ts.append(t); vs.append([M.at(t,0),M.at(t,8) if M.k=='z' else ZERO])
            # (the last two follow from the columns increasing within the row)
            c.assume(LE(M.rs(i0),t),LT(t,M.rs(i0+1)),EQ(M.co(t),j0),Forall((q,),Implies(And(GE(q,M.rs(i0)),LT(q,t)),LT(M.co(q),j0))),Forall((q,),Implies(And(GT(q,t),LT(q,M.rs(i0+1))),GT(M.co(q),j0))))
        else:
            ts.append(None); vs.append([ZERO,ZERO]); c.assume(Forall((q,),Implies(And(GE(q,M.rs(i0)),LT(q,M.rs(i0+1))),NE(M.co(q),j0))))
    (a,b),(x,y)=vs
    v=[a+x,b+y] if op=='add' else [a-x,b-y] if op=='sub' else [a*x-b*y,a*y+b*x]
    comps=(0,8) if k=='z' else (0,); nz=Or(*[NE(v[cc//8],0) for cc in comps])
    class M(Merge): pass
    M.A,M.B,M.i0,M.j0,M.t,M.v,M.comps,M.nz,M.zero=A,B,i0,j0,ts,v,comps,nz,nz is FALSE
    own=lambda o: [x.buf if isinstance(x,AbsRef) else x for x in [o]]
    M.bufs={(X.name,p): own(c.st.mem[X.name].abs[off]) for X in(A,B) for p,off in(('dims',0),('rs',8),('co',16),('da',24))}
    c.ex.invs=[M]; o=c.out(size=40)
    for st,_ in c.run('%s_%s_%s'%(op,kk[0],kk[1]),[o,A.ptr,B.ptr]):
        Rv=SpView(c,st,o); rs,co,da=Rv.rs,Rv.co,Rv.da; rd=lambda vw,i,f,cc=0: read_content(c.ex,f,st.mem[vw.ref.buf].content,P(i),cc)
        N=co.n; Rv.shape(A.R,A.C,N)
        q=fresh('q'); f=st.facts
        c.prove(st,And(EQ(rd(rs,ZERO,f),0),EQ(rd(rs,A.R,f),N)),'row offsets from 0 to the number of entries')
        g=f.add(GE(q,0),LT(q,A.R)); c.prove(st,LE(rd(rs,q,g),rd(rs,q+1,g)),'row offsets in order',g)
        g=f.add(GE(q,0),LT(q,N))
        if feasible(g): c.prove(st,And(GE(rd(co,q,g),0),LT(rd(co,q,g),A.C)),'columns in range',g)
        lo,hi=rd(rs,i0,f),rd(rs,i0+1,f)
        g=f.add(GE(lo,0),LE(hi,N)); c.prove(st,And(GE(lo,0),LE(hi,N)),'row within the entries')
        g1=g.add(GE(q,lo),LT(q,hi-1))
        if feasible(g1): c.prove(st,LT(rd(co,q,g1),rd(co,q+1,g1)),'columns increase within a row',g1)
        if nz is not FALSE:
            w=[n for n in st.notes if n[0]=='merge'][-1][1]; g1=g.add(nz); h=g1.add(LE(lo,w),LT(w,hi))
            c.prove(st,And(LE(lo,w),LT(w,hi)),'the entry is in its row',g1)
            if not feasible(h): continue
            c.prove(st,EQ(rd(co,w,h),j0),'column of the entry',h)
            for cc in comps: c.prove(st,EQ(rd(da,w,h,cc),v[cc//8]),'value of the entry',h)
        g1=g.add(Not(nz),GE(q,lo),LT(q,hi))
        if feasible(g1): c.prove(st,NE(rd(co,q,g1),j0),'zero values are not stored',g1)
