from sparsespec import *
TUS=['@c17','sparse/sparse_d.cc','sparse/sparse_z.cc','sparse/sparse_d_to_z.cc','tensor/tensor_d.cc','tensor/tensor_z.cc','tensor/tensor_to_complex.cc','indices/indices.cc']
KZ=['d','z']
@spec('C17',k=KZ)
def none(c,k):
    o=c.out(size=40)
    for st,_ in c.run('none_'+k,[o]): R=SpView(c,st,o); R.shape(0,0,0); R.rs.elems([ONE],lambda i:i,lambda cc,i:ZERO,'row offsets')
@spec('C17',k=KZ)
def sized(c,k):
    a=c.int('a',0); b=c.int('b',0); o=c.out(size=40)
    for st,_ in c.run('sized_'+k,[o,a,b]): R=SpView(c,st,o); R.shape(a,b,0); R.rs.elems([a+1],lambda i:i,lambda cc,i:ZERO,'row offsets')
@spec('C17',k=KZ,m=[0,1])
def eye(c,k,m):
    a=c.int('a',0); b=c.int('b',0) if m else a; o=c.out(size=40)
    for st,_ in c.run('eye%s_%s'%('' if m else 1,k),[o,a]+([b] if m else [])):
        R=SpView(c,st,o); n=Ite(LE(a,b),a,b); R.shape(a,b,n)
        R.rs.elems([a+1],lambda i:i,lambda cc,i:Ite(LE(i,b),i,b),'row offsets')
        R.co.elems([n],lambda i:i,lambda cc,i:i,'columns'); R.da.elems([n],lambda i:i,lambda cc,i:ONE if cc==0 else ZERO,'values')
@spec('C17',k=KZ)
def copies(c,k):
    S=sparse(c,'S',k); o=c.out(size=40)
    for st,_ in c.run('copy_'+k,[o,S.ptr]): SpView(c,st,o).like(S,lambda cc,i:S.at(i,cc))
@spec('C17',k=KZ)
def assign(c,k):
    S=sparse(c,'S',k); T=sparse(c,'T',k)
    for st,_ in c.run('assign_'+k,[T.ptr,S.ptr]): SpView(c,st,T.ptr).like(S,lambda cc,i:S.at(i,cc))
@spec('C17')
def conversion(c):
    S=sparse(c,'S','d'); o=c.out(size=40)
    for st,_ in c.run('conv',[o,S.ptr]): SpView(c,st,o).like(S,lambda cc,i:S.at(i,0) if cc==0 else ZERO)
@spec('C17',k=KZ)
def sizes(c,k):
    S=sparse(c,'S',k)
    for f,v in(('rows',S.R),('columns',S.C),('length',S.N)):
        for st,r in c.run(f+'_'+k,[S.ptr]): c.prove_eq(st,r,v,f)
    for d in(0,1):
        for st,r in c.run('dim_'+k,[S.ptr,P(d)]): c.prove_eq(st,r,S.C if d else S.R,'dimension %d'%d)
def against(f0,p,S,got,a):
    xs={}
    for b in f0.l:
        if b.k!='forall':
            for x in all_atoms(b): xs[x.id]=x
    for g in got:
        for x in all_atoms(P(g)): xs[x.id]=x
    at=[]
    for x in xs.values():
        if x.kind=='sel' and x.args[0] in(S.name+'.co',S.name+'.da') and x.args[1]!=p and all(x.args[1]!=y for y in at): at.append(x.args[1])
    fs=[f0]
    for y in at:
        row=And(GE(y,S.rs(a)),LT(y,S.rs(a+1)))     # columns increase along the row (instances of the invariant)
        fs=[f.add(*e) for f in fs for e in([LT(p,y),Implies(row,LT(S.co(p),S.co(y)))],[EQ(p,y),EQ(S.co(p),S.co(y))]+[EQ(S.at(p,cc),S.at(y,cc)) for cc in S.comps],[GT(p,y),Implies(row,GT(S.co(p),S.co(y)))])]
    return fs
@spec('C17',k=KZ,i=['pos','neg'],j=['pos','neg'])
def element(c,k,i,j):
    S=sparse(c,'S',k); I=c.int('i'); J=c.int('j')
    def nrm(x,n,s):
        if s=='pos': c.assume(GE(x,0),LT(x,n)); return x
        c.assume(LT(x,0),GE(x,-n)); return x+n
    a=nrm(I,S.R,i); b=nrm(J,S.C,j); o=None
    if k=='z': o=c.cell('o',16)
    for st,v in c.run('at_'+k,([o] if o else [])+[S.ptr,I,J]):
        got=[v] if k=='d' else [st.mem[o.obj].cells[cc][1] for cc in(0,8)]
        p=fresh('p'); f0=st.facts.add(GE(p,S.rs(a)),LT(p,S.rs(a+1)),EQ(S.co(p),b))
        for f in against(f0,p,S,got,a):          # p before, at, or after the places the search looked at
            if not feasible(f): continue
            for n,cc in enumerate(S.comps): c.prove(st,EQ(P(got[n]),S.at(p,cc)),'the stored entry at that position',f)
        q=fresh('q')
        f=st.facts.add(Forall((q,),Implies(And(GE(q,S.rs(a)),LT(q,S.rs(a+1))),NE(S.co(q),b))))
        if feasible(f):
            for n,cc in enumerate(S.comps): c.prove(st,EQ(P(got[n]),0),'zero where nothing is stored',f)
@spec('C17',k=KZ,w=['row','column'],s=['low','high'])
def element_out_of_range(c,k,w,s):
    S=sparse(c,'S',k); I=c.int('i'); J=c.int('j'); x,n=(I,S.R) if w=='row' else (J,S.C)
    if w=='column': c.assume(GE(I,0),LT(I,S.R))
    c.assume(GE(x,n) if s=='high' else LT(x,-n))
    c.run('at_'+k,([c.cell('o',16)] if k=='z' else [])+[S.ptr,I,J],expect='abort')
@spec('C17',k=KZ)
def full(c,k):
    S=sparse(c,'S',k); o=c.out()
    for st,_ in c.run('full_'+k,[o,S.ptr]):
        T=c.tview(st,o); T.shape([S.R,S.C])
        T.elems([S.R,lambda i:S.rs(i+1)-S.rs(i)],lambda i,q:i+S.R*S.co(S.rs(i)+q),lambda cc,i,q:S.at(S.rs(i)+q,cc),'stored entries',when=lambda i,q:And(GE(S.co(S.rs(i)+q),0),LT(S.co(S.rs(i)+q),S.C)))     # (part of the invariant)
        i,j,q=fresh('i'),fresh('j'),fresh('q')
        f=st.facts.add(GE(i,0),LT(i,S.R),GE(j,0),LT(j,S.C),Forall((q,),Implies(And(GE(q,S.rs(i)),LT(q,S.rs(i+1))),NE(S.co(q),j))))
        if feasible(f):
            for cc in S.comps: c.prove(st,EQ(read_content(c.ex,f,T.data.buf.content if hasattr(T.data,'buf') else T.buf.content,i+S.R*j,cc),0),'zero where nothing is stored',f)
# ------------------------------------------------ from a dense matrix: two nested loops with given invariants
import given as G
from terms import exact_div
class Fill(G.Inv):
    """b(i,j)=1 for a non-zero element; row(i,m)=sum of b(i,j) over j<m, cnt(m)=sum of row(i,C) over i<m (used through their recursive
       definitions and, being sums of non-negative terms, monotonicity); w position of the entry (i0,j0) once it is written"""
    now=None
    cnt=staticmethod(lambda m: App('cnt',P(m),sort='I')); row=staticmethod(lambda i,m: App('row',P(i),P(m),sort='I'))
    def ptrs(s,pred): return [r for r,v in s.init.items() if isinstance(v,Ptr) and isinstance(s.st.mem.get(v.obj),Buf) and v.obj not in s.ins and pred(s.st.mem[v.obj])]
    def match(s):
        T=s.T; same=lambda n,m: G.same_sum(s.st.facts,n,m)
        rs=s.ptrs(lambda o: o.kind=='long' and o.n==s.R+1); oc=s.ptrs(lambda o: o.kind=='long' and o.n!=s.R+1 and same(o.n,s.total)); od=s.ptrs(lambda o: o.kind in('double','cdouble') and same(o.n,s.total))
        s.outer=bool(rs)
        if not(oc and od): return False
        if s.outer: s.m={'r':rs[0],'o':oc[0]}; s.__class__.rsb=s.init[rs[0]].obj; s.zero={'r':s.init[rs[0]].off,'o':ZERO}
        else:
            cs=[r for r,v in s.init.items() if isinstance(v,Poly) and v==ZERO]
            if not cs or s.now is None: return False
            s.m={'c':cs[0],'o':oc[0]}; s.zero={'o':ZERO}
        s.oc,s.od=s.init[oc[0]].obj,s.init[od[0]].obj; return True
    def cur(s,v,k):
        x=v.phi[s.m[k]]
        if k=='c': return x
        x=exact_div(x.off-s.zero[k],P(s.st.mem[x.obj].esz))
        if x is None: raise Unsupported('cursor')
        return x
    def candidates(s,r):
        i=s.init[r]
        if isinstance(i,Ptr) and isinstance(s.st.mem.get(i.obj),Buf):
            e=s.st.mem[i.obj].esz; v0=G.View(s.ex,s.st,s.init,s.st.facts)
            return [(lambda v,g,k=k: Ptr(i.obj,i.off+(s.cur(v,k)-s.cur(v0,k))*e)) for k in s.m]
        if isinstance(i,Poly) and s.ty[r][0]=='i':
            ks=[lambda v,k=k: s.cur(v,k) for k in s.m]; n=s.R if s.outer else s.C
            return [(lambda v,g,x=x: x(v)) for x in ks+[lambda v,x=x,n=n: n-x(v) for x in ks[:1]]]
        return []
    def writes(s): return [s.od,s.oc]+([s.rsb] if s.outer else [])
    def note(s,st): return next((n[1] for n in st.notes[::-1] if n[0]=='fill'),ZERO)
    def enter(s,st,v,g):
        st.notes=tuple(st.notes)+(('fill',g['w']),)
        if s.outer: s.__class__.now=s.cur(v,'r')
    def ghosts0(s): return {'w':s.note(s.st)}
    def leave(s,o,g,v): o[1].notes=tuple(o[1].notes)+(('fill',s.note(o[1]) if s.outer else g['w']),)
    def update(s,g,v,vp,facts):
        if s.outer: return {'w':s.note(vp.st)}
        c=And(EQ(s.now,s.i0),EQ(s.cur(v,'c'),s.j0),GT(s.cur(vp,'o'),s.cur(v,'o')))
        return {'w':s.cur(v,'o') if prove(facts,c) else g['w'] if prove(facts,Not(c)) else Ite(c,s.cur(v,'o'),g['w'])}
    def variant(s,v,g): return s.R-s.cur(v,'r') if s.outer else s.C-s.cur(v,'c')
    def instances(s,v,g):
        cnt,row,b=s.cnt,s.row,s.b; r=s.cur(v,'r') if s.outer else s.now; i0=s.i0
        out=[EQ(s.st.mem[b].n,s.total) for b in(s.oc,s.od)]+[EQ(cnt(0),0),EQ(row(r,0),0),Implies(And(GE(r,0),LT(r,s.R)),And(EQ(cnt(r+1),cnt(r)+row(r,s.C)),LE(cnt(r+1),cnt(s.R)),GE(row(r,s.C),0),GE(cnt(r),0)))]
        out+=[Implies(And(GE(r,0),LE(r,i0)),LE(cnt(r),cnt(i0))),Implies(GT(r,i0),LE(cnt(i0+1),cnt(r))),LE(cnt(i0),cnt(i0+1)),GE(cnt(i0),0)]
        if not s.outer:
            c=s.cur(v,'c'); out.append(Implies(And(GE(c,0),LT(c,s.C)),And(EQ(row(r,c+1),row(r,c)+b(r,c)),LE(row(r,c+1),row(r,s.C)),GE(row(r,c),0))))
        return out
    def clauses(s):
        cnt,row,b,i0,j0=s.cnt,s.row,s.b,s.i0,s.j0
        oc=lambda v,i,f: v.rd(s.oc,i,0,f); O=lambda v: s.cur(v,'o'); r=(lambda v: s.cur(v,'r')) if s.outer else (lambda v: s.now)
        L=[]
        if s.outer:
            rs=lambda v,i,f: v.rd(s.rsb,i,0,f)
            L.append(G.fact('rows in range',lambda v,g,f: And(GE(r(v),0),LE(r(v),s.R))))
            L.append(G.fact('entries of the rows done',lambda v,g,f: EQ(O(v),cnt(r(v)))))
            L.append(G.every('row offsets',lambda v,g,f: (ZERO,r(v)+1),lambda v,g,f,q: EQ(rs(v,q,f),cnt(q))))
        else:
            c=lambda v: s.cur(v,'c')
            L.append(G.fact('columns in range',lambda v,g,f: And(GE(c(v),0),LE(c(v),s.C))))
            L.append(G.fact('entries written',lambda v,g,f: EQ(O(v),cnt(r(v))+row(r(v),c(v)))))
            here=lambda v,g,f: EQ(r(v),i0)
            L.append(G.every('columns of this row',lambda v,g,f: (cnt(i0),O(v)),lambda v,g,f,q: LT(oc(v,q,f),c(v)),here))
            L.append(G.every('columns increase in this row',lambda v,g,f: (cnt(i0),O(v)-1),lambda v,g,f,q: LT(oc(v,q,f),oc(v,q+1,f)),here))
            L.append(G.fact('entry written in this row',lambda v,g,f: Implies(s.nz,And(LE(cnt(i0),g['w']),LT(g['w'],O(v)),EQ(oc(v,g['w'],f),j0),*[EQ(v.rd(s.od,g['w'],cc,f),s.T.at(i0+s.R*j0,cc)) for cc in s.T.comps])),lambda v,g,f: And(EQ(r(v),i0),GT(c(v),j0))))
            L.append(G.every('no entry for zero in this row',lambda v,g,f: (cnt(i0),O(v)),lambda v,g,f,q: Implies(Not(s.nz),NE(oc(v,q,f),j0)),here))
        done=lambda v,g,f: GT(r(v),i0)
        L.append(G.every('columns in bounds',lambda v,g,f: (ZERO,O(v)),lambda v,g,f,q: And(GE(oc(v,q,f),0),LT(oc(v,q,f),s.C))))
        L.append(G.every('columns increase in a complete row',lambda v,g,f: (cnt(i0),cnt(i0+1)-1),lambda v,g,f,q: LT(oc(v,q,f),oc(v,q+1,f)),done))
        L.append(G.fact('entry written',lambda v,g,f: Implies(s.nz,And(LE(cnt(i0),g['w']),LT(g['w'],cnt(i0+1)),EQ(oc(v,g['w'],f),j0),*[EQ(v.rd(s.od,g['w'],cc,f),s.T.at(i0+s.R*j0,cc)) for cc in s.T.comps])),done))
        L.append(G.every('no entry for zero',lambda v,g,f: (cnt(i0),cnt(i0+1)),lambda v,g,f,q: Implies(Not(s.nz),NE(oc(v,q,f),j0)),done))
        return L
@spec('C17',k=KZ)
def from_dense(c,k):
    t=c.tensor('T',k,2); o=c.out(size=40); R,C=t.d(0),t.d(1); qs=fresh('qs')
    i0,j0=c.int('i0'),c.int('j0'); c.assume(GE(i0,0),LT(i0,R),GE(j0,0),LT(j0,C))
    isz=lambda x: And(*[EQ(t.at(x,cc),0) for cc in t.comps]); one=lambda x: Ite(isz(x),0,1)
    total=Sum(qs,R*C,one(qs))
    class F(Fill): pass
    F.T,F.R,F.C,F.i0,F.j0,F.total,F.nz=t,R,C,i0,j0,total,Not(isz(i0+R*j0)); F.b=staticmethod(lambda i,j: one(i+R*j))
    F.ins=[b for b in c.st.mem]
    c.assume(EQ(total,Fill.cnt(R)))      # the same finite sum by columns and by rows (rearrangement of a finite sum)
    c.assume(EQ(Fill.cnt(0),0)); c.ex.invs=[F]
    for st,_ in c.run('dense_'+k,[o,t.ptr]):
        V=SpView(c,st,o); cnt=F.cnt; N=V.co.n; rd=lambda vw,i,f,cc=0: read_content(c.ex,f,st.mem[vw.ref.buf].content,P(i),cc)
        V.shape(R,C,total); q=fresh('q')
        g=st.facts.add(GE(q,0),LE(q,R)); c.prove(st,EQ(rd(V.rs,q,g),cnt(q)),'row offsets count the non-zero elements above',g)
        g=st.facts.add(GE(q,0),LT(q,cnt(R)))
        if feasible(g): c.prove(st,And(GE(rd(V.co,q,g),0),LT(rd(V.co,q,g),C)),'columns in range',g)
        lo,hi=cnt(i0),cnt(i0+1); g=st.facts.add(GE(q,lo),LT(q,hi-1))
        if feasible(g): c.prove(st,LT(rd(V.co,q,g),rd(V.co,q+1,g)),'columns increase within a row',g)
        w=[n for n in st.notes if n[0]=='fill'][-1][1]; g=st.facts.add(F.nz)
        c.prove(st,And(LE(lo,w),LT(w,hi),EQ(rd(V.co,w,g),j0),*[EQ(rd(V.da,w,g,cc),t.at(i0+R*j0,cc)) for cc in t.comps]),'a non-zero element is stored at its place',g)
        g=st.facts.add(Not(F.nz),GE(q,lo),LT(q,hi))
        if feasible(g): c.prove(st,NE(rd(V.co,q,g),j0),'zeros are not stored',g)
# ------------------------------------------------ from coordinates
import stdseq
def pick(f,c,a,b): return a if prove(f,c) else b if prove(f,Not(c)) else Ite(c,a,b)
class Coords(G.Inv):
    """which loop it is: collecting the entries, storing them, advancing to the row of an entry, the rows after the last entry"""
    now=None
    cells_change=True
    def seq(s,v):      # elements of the sequence, how many
        p=next(n for n in v.st.notes if n[0]=='seq'); o=v.st.mem[p[1].obj]; d=int(p[1].off.const()); return p[2],o.cells[d+8][1]
    def match(s):
        if not any(n[0]=='seq' for n in s.st.notes): return False
        ints=[r for r,v in s.init.items() if isinstance(v,Poly)]; v0=G.View(s.ex,s.st,s.init,s.st.facts)
        s.B,n=s.seq(v0); s.srt=any(x[0]=='ordered' for x in s.st.notes)
        if not ints or any(isinstance(v,Ptr) for v in s.init.values()): return False
        if not s.srt:
            z=[r for r in ints if s.init[r]==ZERO]
            if not z: return False
            s.kind='collect'; s.m={'i':z[0]}
            s.cell={k:[(o.id,d) for o in s.st.mem.values() if isinstance(o,Cells) and o.kind=='stack' for d,(sz,x) in o.cells.items() if isinstance(x,Poly) and x==P(y)] for k,y in(('R',s.nr),('C',s.nc))}
            if any(len(x)!=1 for x in s.cell.values()): return False
            s.__class__.where=s.cell; return True
        o=s.st.mem[s.out.obj]; s.RS,s.CO,s.DA=(o.abs[k].buf for k in(8,16,24)); s.M=n
        if s.now is not None: s.kind='advance'; s.m={'last':ints[0]}; s.i=s.now; s.last0=s.init[ints[0]]; return len(ints)==1
        z=[r for r in ints if s.init[r]==ZERO]
        if z and len(ints)>1:
            l=[r for r in ints if s.init[r]==P(-1)]
            if not l: return False
            s.kind='store'; s.m={'i':z[0],'last':l[0]}; return True
        s.kind='rest'; s.m={'last':ints[0]}; s.i=n; return len(ints)==1
    def cur(s,v,k): return v.phi[s.m[k]]
    def candidates(s,r): return [(lambda v,g,k=k: s.cur(v,k)) for k in s.m] if s.ty[r][0]=='i' and isinstance(s.init[r],Poly) else []
    def writes(s): return [s.B] if s.kind=='collect' else [s.RS] if s.kind!='store' else [s.RS,s.CO,s.DA]
    def nr_(s,v,k): i,d=s.where[k][0]; return v.st.mem[i].cells[d][1]
    def ghosts0(s): return {'w':ZERO,'a':ZERO,'b':ZERO} if s.kind=='collect' else {}
    def update(s,g,v,vp,f):
        if s.kind!='collect': return {}
        i=s.cur(v,'i'); n=s.seq(v)[1]
        return {'w':pick(f,EQ(i,s.t0),n,g['w']),'a':pick(f,GT(s.nr_(vp,'R'),s.nr_(v,'R')),i,g['a']),'b':pick(f,GT(s.nr_(vp,'C'),s.nr_(v,'C')),i,g['b'])}
    def enter(s,st,v,g):
        if s.kind=='store': s.__class__.now=s.cur(v,'i')
        if s.kind=='collect': s.__class__.names=(s.nr_(v,'R'),s.nr_(v,'C'))
    def leave(s,o,g,v):
        if s.kind=='store': s.__class__.now=None
        if s.kind=='collect': o[1].notes=tuple(o[1].notes)+(('watch',g['w']),('dims',s.nr_(v,'R'),s.nr_(v,'C'),g['a'],g['b']))
    def variant(s,v,g):
        if s.kind=='collect': return s.l-s.cur(v,'i')
        if s.kind=='store': return s.M-s.cur(v,'i')
        return (v.rd(s.B,s.i,0) if s.kind=='advance' else s.nr_(v,'R'))-s.cur(v,'last')
    def clauses(s):
        L=[]; B=s.B; row=lambda v,q,f: v.rd(B,q,0,f); col=lambda v,q,f: v.rd(B,q,8,f); val=lambda v,q,c,f: v.rd(B,q,16+c,f)
        if s.kind=='collect':
            i=lambda v: s.cur(v,'i'); n=lambda v: s.seq(v)[1]
            L.append(G.fact('input in range',lambda v,g,f: And(GE(i(v),0),LE(i(v),s.l))))
            L.append(G.fact('entries collected',lambda v,g,f: And(GE(n(v),0),LE(n(v),i(v)),LE(n(v),v.st.mem[B].n),EQ(n(v),s.st.mem[B] and v.st.mem[s.vec(v)[0]].cells[s.vec(v)[1]+16][1]))))
            for k,inp,n0,w in(('R',s.rows,s.nr,'a'),('C',s.cols,s.nc,'b')):
                L.append(G.fact('size '+k,lambda v,g,f,k=k,inp=inp,n0=n0,w=w: And(GE(s.nr_(v,k),n0),Or(EQ(s.nr_(v,k),n0),And(GE(g[w],0),LT(g[w],i(v)),EQ(s.nr_(v,k),inp(g[w])+1))))))
                L.append(G.every('input fits '+k,lambda v,g,f: (ZERO,i(v)),lambda v,g,f,q,k=k,inp=inp: LT(inp(q),s.nr_(v,k))))
            L.append(G.every('entries in bounds',lambda v,g,f: (ZERO,n(v)),lambda v,g,f,q: And(GE(row(v,q,f),0),LT(row(v,q,f),s.nr_(v,'R')),GE(col(v,q,f),0),LT(col(v,q,f),s.nr_(v,'C')))))
            if s.have=='present': L.append(G.fact('entry collected',lambda v,g,f: And(GE(g['w'],0),LT(g['w'],n(v)),EQ(row(v,g['w'],f),s.i0),EQ(col(v,g['w'],f),s.j0)),lambda v,g,f: GT(i(v),s.t0)))
            else: L.append(G.every('nothing else collected',lambda v,g,f: (ZERO,n(v)),lambda v,g,f,q: Not(And(EQ(row(v,q,f),s.i0),EQ(col(v,q,f),s.j0),*[EQ(val(v,q,c,f),s.v0[c//8]) for c in s.comps]))))
            return L
        last=lambda v: s.cur(v,'last'); i=(lambda v: s.cur(v,'i')) if s.kind=='store' else (lambda v: s.i); rs=lambda v,r,f: v.rd(s.RS,r,0,f)
        if s.kind=='store':
            L.append(G.fact('entries stored',lambda v,g,f: And(GE(i(v),0),LE(i(v),s.M),GE(last(v),-1),LT(last(v),s.nr_(v,'R')),Implies(EQ(i(v),0),EQ(last(v),-1)))))
            L.append(G.fact('row of the last entry',lambda v,g,f: EQ(last(v),row(v,i(v)-1,f)),lambda v,g,f: GT(i(v),0)))
            L.append(G.every('columns stored',lambda v,g,f: (ZERO,i(v)),lambda v,g,f,q: EQ(v.rd(s.CO,q,0,f),col(v,q,f))))
            L.append(G.every('values stored',lambda v,g,f: (ZERO,i(v)),lambda v,g,f,q: And(*[EQ(v.rd(s.DA,q,c,f),val(v,q,c,f)) for c in s.comps])))
        elif s.kind=='advance': L.append(G.fact('row in range',lambda v,g,f: And(LE(s.last0,last(v)),LE(last(v),row(v,s.i,f)))))
        else: L.append(G.fact('row in range',lambda v,g,f: And(LE(-1,last(v)),LE(last(v),s.nr_(v,'R')))))
        L.append(G.every('rows so far',lambda v,g,f: (ZERO,i(v)),lambda v,g,f,q: LE(row(v,q,f),last(v))))
        for nm,r in(('the row',s.i0),('the next row',s.i0+1)):
            w=lambda v,g,f,r=r: LE(r,last(v))
            L.append(G.fact('offset of '+nm,lambda v,g,f,r=r: And(GE(rs(v,r,f),0),LE(rs(v,r,f),i(v))),w))
            L.append(G.every('before '+nm,lambda v,g,f,r=r: (ZERO,rs(v,r,f)),lambda v,g,f,q,r=r: LT(row(v,q,f),r),w))
            L.append(G.every('from %s on'%nm,lambda v,g,f,r=r: (rs(v,r,f),i(v)),lambda v,g,f,q,r=r: GE(row(v,q,f),r),w))
        return L
    def vec(s,v): p=next(n for n in v.st.notes if n[0]=='seq')[1]; return p.obj,int(p.off.const())
    def instances(s,v,g):
        if s.kind=='collect':
            i=s.cur(v,'i'); return [Implies(And(GE(i,0),LT(i,s.l)),And(GE(s.rows(i),0),GE(s.cols(i),0)))]+([s.absent(i)] if s.have=='absent' else [])
        return []
@spec('C17',k=KZ,have=['present','absent'])
def coordinates(c,k,have):
    l=c.int('l',0); r=c.vector('rows','l',l,nonneg=True); cl=c.vector('cols','l',l,nonneg=True); t=c.tensor('T',k,1); c.assume(EQ(t.d(0),l))
    nr,nc=c.int('nr',0),c.int('nc',0); i0,j0=c.int('i0',0),c.int('j0',0); o=c.out(size=40)
    class K(Coords): pass
    K.l,K.nr,K.nc,K.i0,K.j0,K.have,K.comps,K.out=l,nr,nc,i0,j0,have,t.comps,o; K.rows=staticmethod(lambda i: r.at(i)); K.cols=staticmethod(lambda i: cl.at(i))
    K.t0=t0=c.int('t0',0); nz=lambda x: Or(*[NE(t.at(x,cc),0) for cc in t.comps]); q=fresh('q')
    K.v0=v0=[c.real('v%d'%(cc//8)) for cc in t.comps]
    K.absent=staticmethod(lambda x: Implies(And(GE(x,0),LT(x,l)),Not(And(nz(x),EQ(r.at(x),i0),EQ(cl.at(x),j0),*[EQ(t.at(x,cc),v0[cc//8]) for cc in t.comps]))))
    if have=='present': c.assume(LT(t0,l),nz(t0),EQ(r.at(t0),i0),EQ(cl.at(t0),j0))
    else: c.assume(Forall((q,),K.absent(q)))
    c.ex.invs=[K]; import re; c.ex.prims[0:0]=[(re.compile(p),f) for p,f in stdseq.PRIMS]
    for st,_ in c.run('coords_'+k,[o,r.ptr,cl.ptr,t.ptr,nr,nc]):
        V=SpView(c,st,o); rd=lambda vw,i,f,cc=0: read_content(c.ex,f,st.mem[vw.ref.buf].content,P(i),cc)
        d=[n for n in st.notes if n[0]=='dims'][-1]; R,C,a,b=d[1:]; m=V.co.n; V.shape(R,C,m)
        for n0,n1,inp,w in((nr,R,r,a),(nc,C,cl,b)):
            c.prove(st,And(GE(n1,n0),Or(EQ(n1,n0),And(GE(w,0),LT(w,l),EQ(n1,inp.at(w)+1)))),'size is the largest coordinate or the one given')
            x=fresh('x'); c.prove(st,LT(inp.at(x),n1),'coordinates fit',st.facts.add(GE(x,0),LT(x,l)))
        lo=rd(V.rs,i0,st.facts); f=st.facts.add(LT(i0,R)); x=fresh('x')
        B=next(n for n in st.notes if n[0]=='seq')[2]; row=lambda q,f: read_content(c.ex,f,st.mem[B].content,P(q),0)
        if feasible(f):
            lo,hi=rd(V.rs,i0,f),rd(V.rs,i0+1,f)
            c.prove(st,And(GE(lo,0),LE(hi,m)),'row offsets in range',f) 
            for q,cond,goal,nm in((hi,GT(lo,hi),LE(lo,hi),'row offsets in order'),(ZERO,And(EQ(i0,0),GT(lo,0)),EQ(lo,0),'first row offset'),(m-1,And(EQ(i0+1,R),LT(hi,m)),EQ(hi,m),'last row offset')):
                g=f.add(cond)
                if feasible(g):
                    b=And(GE(row(q,g),0),LT(row(q,g),R)); c.prove(st,b,'entries are in rows of the matrix',g); g=g.add(b)
                    if not prove(g,FALSE): c.prove(st,goal,nm,g)
            g=f.add(GE(x,lo),LT(x,hi)); c.prove(st,And(GE(rd(V.co,x,g),0),LT(rd(V.co,x,g),C)),'columns in range',g)
            g=f.add(GE(x,lo),LT(x+1,hi)); c.prove(st,LT(rd(V.co,x,g),rd(V.co,x+1,g)),'columns increase within a row',g)
            if have=='present':
                w=[n for n in st.notes if n[0]=='watch'][-1][1]; c.prove(st,And(LE(lo,w),LT(w,hi),EQ(rd(V.co,w,f),j0)),'a coordinate with a non-zero value is stored',f)
            else:
                g=f.add(GE(x,lo),LT(x,hi)); c.prove(st,Not(And(EQ(rd(V.co,x,g),j0),*[EQ(rd(V.da,x,g,cc),v0[cc//8]) for cc in t.comps])),'only given values are stored',g)
        if have=='present': c.prove(st,LT(i0,R),'the row exists')
        g=st.facts.add(EQ(R,0),EQ(i0,0))
        if feasible(g):
            b=And(GE(row(ZERO,g),0),LT(row(ZERO,g),R)); h=g.add(GT(m,0))
            if feasible(h): c.prove(st,b,'entries are in rows of the matrix',h); g=g.add(Implies(GT(m,0),b))
            c.prove(st,And(EQ(m,0),EQ(rd(V.rs,0,g),0)),'a matrix without rows is empty',g)
@spec('C17',k=KZ)
def random(c,k):
    """a random matrix is the sparse form of a dense matrix of the given size (see from_dense)"""
    R,C=c.int('R',0),c.int('C',0); d=c.real('d'); o=c.out(size=40); made=[]; import re
    c.assume(GT(d,0))
    def draw(ex,st,a,name):
        r=st.mem[a[0].obj].abs[int(a[0].off.const())]; b=st.w(r.buf)
        if b.owners>1: raise Unsupported('shared storage is randomized')
        b.content=lam_content(lambda i,cc: Sel('drawn',P(i),cc,'R')); made.append('drawn'); return None
    def dense(ex,st,a,name):
        T=TView(c,st,a[1]); T.shape([R,C])
        u=newid('sp'); m=fresh('m'); st.assume(GE(m,0)); from coords import place
        place(st,a[0],k,u,R,C,m,lambda i,cc: Sel(u+'.rs',P(i),0,'I'),lambda i,cc: Sel(u+'.co',P(i),0,'I'),lambda i,cc: Sel(u+'.da',P(i),cc,'R')); made.append(u); return None
    E='double' if k=='d' else 'std::complex<double>'; T=r'tensor::Tensor<%s ?>'%E
    c.ex.prims[0:0]=[(re.compile(p),f) for p,f in((T+r'::randomize\(\)',draw),(r'tensor::Sparse<%s ?>::Sparse\(%s const&\)'%(E,T),dense))]
    for st,_ in c.run('random_'+k,[o,R,C,d]):
        ok=len(made)==2 and made[0]=='drawn'; c.ex.log('drawn once, made sparse once',ok)
        if not ok: raise Failed('drawn once, made sparse once')
        V=SpView(c,st,o); ok=V.rs.ref.buf.startswith(made[1]); c.ex.log('the sparse form is returned',ok); made.clear()
        if not ok: raise Failed('the sparse form is returned')
