"""contracts of the concrete ranges and of products of ranges, shared by C05 and C06"""
from ranges import *
RTUS=['@ranges','views/range.cc']
INFO={0:8,1:8,2:8,3:8,4:8,5:8}
def info(c): o=Cells('info',48,'param'); c.st.mem['info']=o; return Ptr('info',0)
def cellv(st,i):
    v=st.mem['info'].cells.get(8*i)
    if v is None: raise Failed('value is returned',str(i))
    return v[1]
def leaves(c,A,r,injective=False):
    if r==1: return [opaque(c,'r1',c.int('n1',0),A.n,limited=False,injective=injective)]
    return [opaque(c,'r%d'%(i+1),c.int('n%d'%(i+1),0),A.d(i),limited=False,injective=injective) for i in range(r)]
def product_facts(st,rs,es):
    """positions of the products of rs at the point es, by the contract of products; (facts, position, index)"""
    tops={}
    for q in RANGES.values():
        if q.kids and q.name in st.mem: tops[tuple(x.name for x in q.kids)]=q
    fs=[]
    def rec(rs,es):
        if len(rs)==1: return rs[0],es[0]
        q,k=rec(rs[1:],es[1:])
        t=tops.get((rs[0].name,q.name))
        if t is None: raise Failed('slice enumerates the product of its ranges, first index fastest')
        p=es[0]+rs[0].n*k
        fs.append(EQ(t.f(p),rs[0].f(es[0])+q.f(k)*rs[0].limit)); return t,p
    t,p=rec(rs,es)
    return fs,t,p
def lin(rs,es):
    p=ZERO; s=ONE
    for r,e in zip(rs,es): p=p+e*s; s=s*r.n
    return p
def register(prop):
    norm_contract(prop)
    def cases(kind,c,L):
        """admissible arguments, number of selected positions, selected position k"""
        if kind=='full': return [c.int('z')],L,lambda k:k,0
        if kind in('single+','single-'):
            i=c.int('i'); 
            if kind[-1]=='+': c.assume(GE(i,0),LT(i,L)); return [i],ONE,lambda k:i,0
            c.assume(LT(i,0),GE(i,-L)); return [i],ONE,lambda k:i+L,0
        if kind.startswith('step'):
            a=c.int('a'); b=c.int('b'); n=c.int('n',0); s=ONE if kind[4]=='1' else c.int('s',1)
            A=a if kind[5]=='+' else a+L; B=b if kind[6]=='+' else b+L
            c.assume(GE(a,0) if kind[5]=='+' else And(LT(a,0),GE(A,0))); c.assume(GE(b,0) if kind[6]=='+' else LT(b,0)); c.assume(LT(B,L))
            if kind[7:]=='e': c.assume(LT(B,A)); n=ZERO
            else: c.assume(GE(B,A),GE(n,1),LE(A+(n-1)*s,B),GT(A+n*s,B))
            return [a,b]+([] if kind[4]=='1' else [s]),n,lambda k:A+s*k,0
        if kind=='list':
            l=c.vector('l','l'); x=fresh('q'); c.assume(Forall([x],Implies(And(GE(x,0),LT(x,l.n)),And(LT(l.at(x),L),GE(l.at(x),-L)))))
            return [l.ptr],l.n,lambda k:Norm(l.at(k),L),0
    KINDS=['full','single+','single-']+['step%s%s%s%s'%(x,a,b,e) for x in('1','n') for a in'+-' for b in'+-' for e in('','e')]+['list']
    fn=lambda k: 'step1' if k.startswith('step1') else 'step' if k.startswith('step') else 'single' if k.startswith('single') else k
    @spec(prop,'range_walk',kind=KINDS)
    def range_walk(c,kind):
        L=c.int('L',0); F=c.int('F',0); args,n,g,_=cases(kind,c,L); c.assume(GE(F,1)); p=c.int('p',0); c.assume(LE(p,n)); o=c.vector('o','l',n,'own')
        for st,_ in c.run('walk_'+fn(kind),args+[L,F,p,o.ptr,info(c)]):
            c.prove_eq(st,cellv(st,0),n,'size'); c.prove_eq(st,cellv(st,1),L,'limit is recorded'); c.prove_eq(st,cellv(st,2),F,'factor is recorded')
            for i in(3,4,5): c.prove_eq(st,cellv(st,i),-1,'nomore after the last position')
            c.vview(st,o.ptr).elems([n],lambda k:k,lambda cc,k:g(k)*F,name='selected positions')
    range_walk.prims=[NORM]
    @spec(prop,'range_zero_factor',kind=KINDS)
    def range_zero_factor(c,kind):
        L=c.int('L',0); args,n,g,_=cases(kind,c,L); m=ZERO if kind=='full' else n; p=c.int('p',0); c.assume(LE(p,m)); o=c.vector('o','l',m,'own')
        for st,_ in c.run('walk_'+fn(kind),args+[L,ZERO,p,o.ptr,info(c)]):
            c.prove_eq(st,cellv(st,2),0,'factor is recorded'); c.prove_eq(st,cellv(st,3),-1,'nomore after a fixed number of zeros')
            c.vview(st,o.ptr).elems([m],lambda k:k,lambda cc,k:ZERO,name='zeros')
    range_zero_factor.prims=[NORM]
    @spec(prop,'range_refactor',kind=KINDS)
    def range_refactor(c,kind):
        L=c.int('L',0); F0=c.int('F0',0); F=c.int('F',1); args,n,g,_=cases(kind,c,L); o=c.vector('o','l',n,'own')
        for st,_ in c.run('twice_'+fn(kind),args+[L,F0,F,o.ptr,info(c)]):
            c.prove_eq(st,cellv(st,2),F,'factor is recorded'); c.prove_eq(st,cellv(st,3),-1,'nomore after the last position')
            c.vview(st,o.ptr).elems([n],lambda k:k,lambda cc,k:g(k)*F,name='selected positions')
    range_refactor.prims=[NORM]
    @spec(prop,'range_bounds',kind=['single','step1','step','list'],side=['above','below'])
    def range_bounds(c,kind,side):
        L=c.int('L',0); i=c.int('i'); c.assume(GE(i,L) if side=='above' else LT(i,-L)); z=c.int('z'); 
        if kind=='list':
            l=c.vector('l','l'); q=c.int('q'); c.assume(GE(q,0),LT(q,l.n),EQ(l.at(q),i)); args=[l.ptr]
        else:
            args={'single':[i],'step1':[z,i] if side=='above' else [i,z],'step':[z,i,c.int('s',1)] if side=='above' else [i,z,c.int('s',1)]}[kind]
        c.run('limit_'+kind,args+[L],expect='abort')
    range_bounds.prims=[NORM]
    @spec(prop,'range_line',kind=KINDS)
    def range_line(c,kind):
        L=c.int('L',0); args,n,g,_=cases(kind,c,L); o=c.vector('o','l',n,'own')
        for st,_ in c.run('line_'+fn(kind),args+[L,o.ptr,info(c)]):
            c.prove_eq(st,cellv(st,0),n,'size'); c.prove_eq(st,cellv(st,3),-1,'nomore after the last position')
            c.vview(st,o.ptr).elems([n],lambda k:k,lambda cc,k:g(k),name='selected positions')
    range_line.prims=[NORM]
    # ------------------------------------------------------------ products of ranges
    def two(c):
        n1=c.int('n1',0); n2=c.int('n2',0); L1=c.int('L1',0); L2=c.int('L2',0)
        return opaque(c,'r1',n1,L1),opaque(c,'r2',n2,L2)
    def product_of(c,F=None):
        """a product with any factor whose two factors deliver something"""
        r1,r2=two(c); F=c.int('F',0); out=[]
        for st,v in c.run('prod_reset',[r1.ptr,r2.ptr,F]):
            for s1,e1 in eff(st,r1):
                for s2,e2 in eff(s1,r2):
                    s2=s2.copy(); s2.assume(GE(e1,1),GE(e2,1))
                    if feasible(s2.facts): out.append((s2,v,e1,e2))
        return r1,r2,F,out
    def locate(c,st,v,r1,r2):
        """the cell of the product that holds the position of the second factor"""
        o=st.mem[v.obj]; w=r2.f(ZERO)*ghost(st,r2,FAC); hit=[k for k,x in o.cells.items() if isinstance(x[1],Poly) and x[1]==w]
        if len(hit)!=1: raise Unsupported('state of the product of ranges not recognised')
        return hit[0]
    def at(c,st,p,off,r1,r2,i,j,base):
        s=st.copy(); put(s,'r1',POS,i); put(s,'r2',POS,j+1); s.w(p.obj).cells[off]=(8,base); return s
    def runs(c,st,f,args):
        c.st=st; return c.run(f,args)
    @spec(prop,'product_new')
    def product_new(c):
        r1,r2=two(c)
        for st,v in c.run('prod_new',[r1.ptr,r2.ptr]):
            c.prove(st,EQ(ghost(st,r2,FAC),r1.limit),'second factor counts in units of the first limit'); c.prove(st,EQ(ghost(st,r1,FAC),1),'first factor unchanged')
            for s2,n in runs(c,st,'range_size',[v]): c.prove_eq(s2,n,r1.n*r2.n,'size is the product of the sizes')
    @spec(prop,'product_set_factor')
    def product_set_factor(c):
        r1,r2=two(c); F=c.int('F',0)
        for st,v in c.run('prod_factor',[r1.ptr,r2.ptr,F,info(c)]):
            c.prove(st,EQ(ghost(st,r1,FAC),F),'first factor'); c.prove(st,EQ(ghost(st,r2,FAC),F*r1.limit),'second factor')
            c.prove_eq(st,cellv(st,0),r1.n*r2.n,'size')
            for r in(r1,r2): c.prove(st,EQ(ghost(st,r,DEL),1),'each factor deleted once')
    @spec(prop,'product_pop',case=['inside','carry','end','ended'])
    def product_pop(c,case):
        r1,r2,F,rs=product_of(c); i=c.int('i',0); j=c.int('j',0)
        n=0
        for st,v,e1,e2 in rs:
            F1=ghost(st,r1,FAC); F2=ghost(st,r2,FAC); off=locate(c,st,v,r1,r2)
            c.prove(st,And(EQ(F1,F),EQ(F2,F*r1.limit)),'factors'); c.prove(st,And(EQ(ghost(st,r1,POS),0),EQ(ghost(st,r2,POS),1)),'reset starts at the first position')
            st.assume(GE(i,0),LE(i,e1),GE(j,0),LT(j,e2)); base=r2.f(j)*F2
            if case=='inside': st.assume(LT(i,e1))
            elif case=='carry': st.assume(EQ(i,e1),LT(j+1,e2))
            elif case=='end': st.assume(EQ(i,e1),EQ(j+1,e2))
            else: base=P(-1)
            if not feasible(st.facts): continue
            n+=1; s=at(c,st,v,off,r1,r2,i,j,base)
            for s2,w in runs(c,s,'range_pop',[v]):
                b2=s2.mem[v.obj].cells[off][1]; p1=ghost(s2,r1,POS); p2=ghost(s2,r2,POS)
                if case=='inside':
                    c.prove_eq(s2,w,r1.f(i)*F1+r2.f(j)*F2,'position'); c.prove(s2,And(EQ(p1,i+1),EQ(p2,j+1)),'next position'); c.prove_eq(s2,b2,base,'second factor stays')
                elif case=='carry':
                    c.prove_eq(s2,w,r1.f(ZERO)*F1+r2.f(j+1)*F2,'position'); c.prove(s2,And(EQ(p1,1),EQ(p2,j+2)),'next position'); c.prove_eq(s2,b2,r2.f(j+1)*F2,'second factor advances')
                else: c.prove_eq(s2,w,-1,'nomore'); c.prove_eq(s2,b2,-1,'stays exhausted')
        if not n: raise Failed('vacuous')
    @spec(prop,'product_reset')
    def product_reset(c):
        r1,r2,F,rs=product_of(c); i=c.int('i',0); j=c.int('j',0); b=c.int('b',-1)
        for st,v,e1,e2 in rs:
            off=locate(c,st,v,r1,r2)
            s=at(c,st,v,off,r1,r2,i,j,b)
            for s2,_ in runs(c,s,'range_reset',[v]):
                c.prove(s2,And(EQ(ghost(s2,r1,POS),0),EQ(ghost(s2,r2,POS),1)),'starts again'); c.prove_eq(s2,s2.mem[v.obj].cells[off][1],r2.f(ZERO)*ghost(s2,r2,FAC),'first position of the second factor')
    @spec(prop,'product_empty',which=['first','second'])
    def product_empty(c,which):
        r1,r2=two(c); F=c.int('F',0); r=r1 if which=='first' else r2; n=0
        for st,v in c.run('prod_reset',[r1.ptr,r2.ptr,F]):
            for s1,e in eff(st,r):
                s1=s1.copy(); s1.assume(EQ(e,0))
                if not feasible(s1.facts): continue
                for s2,w in runs(c,s1,'range_pop',[v]): c.prove_eq(s2,w,-1,'nomore'); n+=1
        if not n: raise Failed('vacuous')
    @spec(prop,'product_delete')
    def product_delete(c):
        r1,r2=two(c)
        for st,v in c.run('prod_new',[r1.ptr,r2.ptr]):
            for s2,_ in runs(c,st,'range_delete',[v]):
                for r in(r1,r2): c.prove(s2,EQ(ghost(s2,r,DEL),1),'each factor deleted once')
    for f in(product_new,product_set_factor,product_pop,product_reset,product_empty,product_delete): f.prims=PRIMS_RANGE
