from spec import *
from sorting import SORT,Sorted
TUS=['@c21','tensor/tensor_sort_d.cc','tensor/tensor_sort_i.cc','indices/indices.cc','tensor/tensor_d.cc']
def input(c,k): return c.tensor('A','d') if k=='d' else c.vector('A','l')
def check(c,st,o,A,k,rev,ndx):
    R=c.vview(st,o); R.len_is(A.n); R.fresh()
    q=c.int('q!'); f=st.facts.add(GE(q,0),LT(q,A.n))
    if not feasible(f): return
    s=[o.d for o in st.mem.values() if isinstance(o,Sorted)]
    if len(s)!=1: raise Failed('the result is sorted')
    p,lo,hi=s[0]; c.prove(st,And(EQ(lo,0),EQ(hi,A.n)),'the whole sequence is sorted',f)
    perm=lambda i: Sel(p,i,0,'I')
    R.elems([A.n],lambda i:i,lambda cc,i: perm(i) if ndx else A.at(perm(i)),'permutation of the '+('positions' if ndx else 'elements'))
    f=f.add(LT(q+1,A.n))
    if not feasible(f): return
    el=lambda i: read_content(c.ex,f,R.buf.content,i,0)
    x,y=el(q),el(q+1)
    if ndx: x,y=A.at(x),A.at(y)
    c.prove(st,GE(x,y) if rev else LE(x,y),'elements in order',f)
@spec('C21',k=['d','i'],rev=[False,True],f=['sort','sortndx'])
def sorts(c,k,rev,f):
    A=input(c,k); o=c.out()
    for st,_ in c.run('%s_%s'%(f,k),[o,A.ptr,TRUE if rev else FALSE]):
        if prove(st.facts,EQ(A.n,0)): R=c.vview(st,o); R.len_is(0); continue
        check(c,st,o,A,k,rev,f=='sortndx')
        if f=='sort' and k=='d': T=c.tview(st,o); T.rank_is(A.r); q=fresh('q'); T.dim(q,A.d(q),[GE(q,0),LT(q,A.r)])
sorts.prims=[SORT]
