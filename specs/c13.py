from spec import *
TUS=['@c13','tensor/tensor_trace_d.cc','tensor/tensor_trace_z.cc','tensor/matrix_trace_d.cc','tensor/matrix_trace_z.cc','tensor/tensor_take_diag_d.cc','tensor/tensor_take_diag_z.cc','tensor/matrix_diag_d.cc','tensor/matrix_diag_z.cc']
def pick(c,A,sg,order):
    """two dimensions of A, by position or counted from the end"""
    i=c.int('i'); j=c.int('j'); n=[]
    for v,s in((i,sg[0]),(j,sg[1])):
        if s=='+': c.assume(GE(v,0),LT(v,A.r)); n.append(v)
        else: c.assume(LT(v,0),GE(v,-A.r)); n.append(v+A.r)
    c.assume(LT(n[0],n[1]) if order=='<' else GT(n[0],n[1]))
    return i,j,(n[0],n[1]) if order=='<' else (n[1],n[0])
def parts(A,m,n): return A.P(ZERO,m),A.d(m),A.P(m+1,n),A.d(n),A.P(n+1,A.r)
def out_dims(R,A,m,n,keep=None):
    """dimensions of A without m and n (keep: value of dimension m when it stays)"""
    q=fresh('q'); R.dim(q,A.d(q),[GE(q,0),LT(q,m)])
    if keep is None: s=1
    else: R.dim(m,keep); s=0
    q=fresh('q'); R.dim(q-s,A.d(q),[GT(q,m),LT(q,n)])
    q=fresh('q'); R.dim(q-s-1,A.d(q),[GT(q,n),LT(q,A.r)])
@spec('C13',k=['d','z'],sg=['++','-+','+-','--'],order=['<','>'],rank=['2','>2'])
def partial_trace(c,k,sg,order,rank):
    A=c.tensor('A',k,c.int('A.r',3) if rank=='>2' else 2)
    if rank=='2':
        i,j=[P(x if s=='+' else x-2) for x,s in zip((0,1) if order=='<' else (1,0),sg)]; m,n=ZERO,ONE
    else: i,j,(m,n)=pick(c,A,sg,order)
    o=c.out(); a1,a2,a3,a4,a5=parts(A,m,n)
    for st,_ in c.run('trace_'+k,[o,A.ptr,i,j]):
        R=c.tview(st,o); R.data.fresh()
        l=fresh('l'); b=Ite(LT(a4,a2),a4,a2)
        if rank=='2': R.shape([1])
        else: R.rank_is(A.r-2); out_dims(R,A,m,n); R.data.len_is(a1*a3*a5)
        R.elems([a1,a3,a5],lambda x,y,z:x+a1*(y+a3*z),lambda cc,x,y,z:Sum(l,b,A.at(x+a1*(l+a2*(y+a3*(l+a4*z))),cc)))
@spec('C13',k=['d','z'],bad=['same','i>=r','j>=r','i<-r','j<-r'])
def partial_trace_aborts(c,k,bad):
    A=c.tensor('A',k); i=c.int('i'); j=c.int('j')
    if bad=='same': c.assume(GE(i,0),LT(i,A.r),Or(EQ(j,i),EQ(j,i-A.r)))
    else: v=i if bad[0]=='i' else j; c.assume(GE(v,A.r) if '>=' in bad else LT(v,-A.r))
    c.run('trace_'+k,[c.out(),A.ptr,i,j],expect='abort')
@spec('C13',k=['d','z'])
def matrix_trace(c,k):
    A=c.tensor('A',k,2); l=fresh('l'); b=Ite(LT(A.d(1),A.d(0)),A.d(1),A.d(0))
    o=c.cell('o',{0:ZERO,8:ZERO}) if k=='z' else None
    for st,v in c.run('tr_'+k,[A.ptr]+([o] if o else [])):
        g=[st.mem['o'].cells[x][1] for x in (0,8)] if o else [v]
        for x,cc in zip(g,(0,8)): c.prove_eq(st,x,Sum(l,b,A.at(l*(A.d(0)+1),cc)),'sum of the diagonal')
@spec('C13',k=['d','z'])
def matrix_trace_aborts(c,k):
    A=c.tensor('A',k); c.assume(NE(A.r,2)); c.run('tr_'+k,[A.ptr]+([c.cell('o',{0:ZERO,8:ZERO})] if k=='z' else []),expect='abort')
@spec('C13',k=['d','z'],sg=['++','-+','+-','--'],order=['<','>'],w=['>=0','<0'])
def take_diag(c,k,sg,order,w):
    A=c.tensor('A',k); i,j,(m,n)=pick(c,A,sg,order); o=c.out(); a1,a2,a3,a4,a5=parts(A,m,n); W=c.int('w')
    # offset counted as (second index) - (first index) for the dimensions in the order given
    e=W if order=='<' else -W
    c.assume(GE(e,0) if w=='>=0' else LT(e,0)); c.assume(GT(e,-a2),LT(e,a4))
    o1,o2=(ZERO,e) if w=='>=0' else (-e,ZERO)
    ln=Ite(LE(a2-o1,a4-o2),a2-o1,a4-o2)
    for st,_ in c.run('take_'+k,[o,A.ptr,W,i,j]):
        R=c.tview(st,o); R.rank_is(A.r-1); out_dims(R,A,m,n,ln); R.data.len_is(a1*ln*a3*a5)
        R.elems([a1,ln,a3,a5],lambda x,l,y,z:x+a1*(l+ln*(y+a3*z)),lambda cc,x,l,y,z:A.at(x+a1*((o1+l)+a2*(y+a3*((o2+l)+a4*z))),cc))
@spec('C13',k=['d','z'],bad=['i>=r','j>=r','i<-r','j<-r','w>=d','w<=-d'])
def take_diag_aborts(c,k,bad):
    A=c.tensor('A',k); i=c.int('i'); j=c.int('j'); w=c.int('w')
    if bad[0]=='w': c.assume(GE(i,0),LT(i,j),LT(j,A.r),GE(w,A.d(j)) if '>=' in bad else LE(w,-A.d(i)))
    else: v=i if bad[0]=='i' else j; c.assume(GE(v,A.r) if '>=' in bad else LT(v,-A.r))
    c.run('take_'+k,[c.out(),A.ptr,w,i,j],expect='abort')
@spec('C13',k=['d','z'],f=['diag','diag1'],w=['>=0','<0'])
def make_diag(c,k,f,w):
    a=c.tensor('a',k); W=c.int('w'); c.assume(GE(W,0) if w=='>=0' else LT(W,0)); o=c.out(); r0,c0=(ZERO,W) if w=='>=0' else (-W,ZERO)
    if f=='diag':
        rows=c.int('rows',0); cols=c.int('cols',0); args=[rows,cols]
        c.assume(Or(And(EQ(rows-r0,a.n),GE(cols-c0,a.n)),And(EQ(cols-c0,a.n),GE(rows-r0,a.n))))
    else: rows=cols=a.n+r0+c0; args=[]
    for st,_ in c.run(f+'_'+k,[o,a.ptr,W]+args):
        R=c.tview(st,o); R.shape([rows,cols]); R.data.fresh()
        R.elems([rows,cols],lambda i,j:i+rows*j,lambda cc,i,j:Ite(And(EQ(i-r0,j-c0),GE(i,r0),GE(j,c0),LT(i-r0,a.n)),a.at(i-r0,cc),0))
@spec('C13',k=['d','z'],w=['>=0','<0'],bad=['length','offset'])
def make_diag_aborts(c,k,w,bad):
    a=c.tensor('a',k); W=c.int('w'); c.assume(GE(W,0) if w=='>=0' else LT(W,0)); r0,c0=(ZERO,W) if w=='>=0' else (-W,ZERO); rows=c.int('rows',0); cols=c.int('cols',0)
    if bad=='length': c.assume(GE(rows,r0),GE(cols,c0),NE(rows-r0,a.n),NE(cols-c0,a.n))
    else: c.assume(Or(LT(rows,r0),LT(cols,c0)))
    c.run('diag_'+k,[c.out(),a.ptr,W,rows,cols],expect='abort')
