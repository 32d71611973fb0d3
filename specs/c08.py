from spec import *
import glob,os,build_ir
TUS=['@c08']+['compare/'+os.path.basename(f) for f in sorted(glob.glob(build_ir.REPO+'/src/compare/*.cc'))]+['indices/'+f for f in('booleans.cc','booleans_and.cc','booleans_or.cc','booleans_not.cc','which.cc')]
OPF={'lt':lambda x,y:LT(x,y),'gt':lambda x,y:GT(x,y),'le':lambda x,y:LE(x,y),'ge':lambda x,y:GE(x,y),'eq':lambda x,y:EQ(x,y),'ne':lambda x,y:NE(x,y)}
def operand(c,name,k,like=None):
    if k in('r','z'): return c.tensor(name,'d' if k=='r' else 'z',like.r if like else None) if like is None else c.like(name,like,'d' if k=='r' else 'z')
    if k=='i': return c.vector(name,'l',like.n if like else None)
def rel(f,x,y,z):
    if not z: return OPF[f](x[0],y[0])
    e=And(EQ(x[0],y[0]),EQ(x[1],y[1]))
    return e if f=='eq' else Not(e)
CASES=[(f,t) for f in('lt','gt','le','ge','eq','ne') for t in('rr','rs','sr','ii','is','si')]+[(f,t) for f in('eq','ne') for t in('zz','zs','sz')]
def args(c,t):
    """operands: (pointer/value list, element accessor)"""
    z='z' in t; A=None; ps=[]; el=[]
    cs=(0,8) if z else (0,)
    base=None
    for i,k in enumerate(t):
        if k!='s':
            v=operand(c,'AB'[i],k,base); base=base or v; ps.append(v.ptr); el.append(lambda q,v=v:[v.at(q,cc) for cc in cs])
        else:
            if z: p=c.zref('s'); ps.append(p); el.append(lambda q:[Var('s.0','R'),Var('s.8','R')])
            else: x=c.real('s') if 'r' in t else c.int('s'); ps.append(x); el.append(lambda q,x=x:[x])
    return base,ps,el
@spec('C08',ft=['_'.join(x) for x in CASES])
def compare(c,ft):
    f,t=ft.split('_'); base,ps,el=args(c,t); o=c.out()
    for st,_ in c.run(ft,[o]+ps):
        R=c.vview(st,o); R.len_is(base.n); R.fresh()
        R.elems([base.n],lambda q:q,lambda cc,q:rel(f,el[0](q),el[1](q),'z' in t))
@spec('C08',ft=['_'.join(x) for x in CASES if 's' not in x[1]])
def compare_mismatch_aborts(c,ft):
    f,t=ft.split('_'); a=operand(c,'A',t[0]); b=operand(c,'B',t[1]); c.assume(NE(a.n,b.n))
    c.run(ft,[c.out(),a.ptr,b.ptr],expect='abort')
@spec('C08',f=['and','or','not'])
def logical(c,f):
    a=c.vector('A','b'); b=c.vector('B','b',a.n); o=c.out()
    for st,_ in c.run('m_'+f,[o,a.ptr]+([b.ptr] if f!='not' else [])):
        R=c.vview(st,o); R.len_is(a.n); R.fresh()
        t=lambda v:NE(v,0)
        R.elems([a.n],lambda q:q,lambda cc,q: And(t(a.at(q)),t(b.at(q))) if f=='and' else Or(t(a.at(q)),t(b.at(q))) if f=='or' else Not(t(a.at(q))))
@spec('C08',f=['and','or'])
def logical_mismatch_aborts(c,f):
    a=c.vector('A','b'); b=c.vector('B','b'); c.assume(NE(a.n,b.n)); c.run('m_'+f,[c.out(),a.ptr,b.ptr],expect='abort')
def iff_forall(c,st,v,n,body,name,neg=False):
    """v == (forall q<n: body(q)), or its negation"""
    q=fresh('q'); v=v if isinstance(v,Bool) else NE(P(v),0); T=Not(v) if neg else v; F=Not(T)
    rng=[GE(q,0),LT(q,n)]
    c.prove(st,Implies(And(T,*rng),body(q)),name+': true only if every entry agrees')
    f=st.facts.add(F,Forall([q],Implies(And(*rng),body(q))))
    if not prove(f,FALSE) and not prove_deep(f,FALSE): c.ex.log(name+': false only if some entry differs',False); raise Failed(name+': false only if some entry differs',str(prover.LAST['reason']))
    c.ex.log(name+': false only if some entry differs',True)
@spec('C08',f=['all','any','none'])
def quantifiers(c,f):
    a=c.vector('A','b')
    for st,v in c.run(f+'_',[a.ptr]):
        c.st=st
        body=(lambda q:NE(a.at(q),0)) if f=='all' else (lambda q:EQ(a.at(q),0))
        iff_forall(c,st,v,a.n,body,f+'_of',neg=(f=='any'))
@spec('C08',t=['rr','rs','sr','zz','zs','sz','ii'])
def all_equal_same_shape(c,t):
    base,ps,el=args(c,t)
    for st,v in c.run('ae_'+t,ps): iff_forall(c,st,v,base.n,lambda q:rel('eq',el[0](q),el[1](q),'z' in t),'all_equal')
@spec('C08',t=['rr','zz'],how=['rank','dimension'])
def all_equal_other_shape(c,t,how):
    k='d' if t=='rr' else 'z'
    a=c.tensor('A',k)
    b=c.tensor('B',k,a.r if how=='dimension' else None)
    if how=='rank': c.assume(NE(a.r,b.r))
    else: j=c.int('j',0); c.assume(LT(j,a.r),NE(a.d(j),b.d(j)))
    for st,v in c.run('ae_'+t,[a.ptr,b.ptr]): c.prove(st,Not(v) if isinstance(v,Bool) else EQ(P(v),0),'all_equal is false for different shapes')
@spec('C08')
def all_equal_other_length(c):
    a=c.vector('A','l'); b=c.vector('B','l'); c.assume(NE(a.n,b.n))
    for st,v in c.run('ae_ii',[a.ptr,b.ptr]): c.prove(st,Not(v) if isinstance(v,Bool) else EQ(P(v),0),'all_equal is false for different lengths')
@spec('C08')
def which(c):
    a=c.vector('A','b'); o=c.out()
    for st,_ in c.run('which_',[o,a.ptr]):
        R=c.vview(st,o); R.fresh()
        cnt=lambda t: Sum(QV,t,Ite(EQ(a.at(QV),0),0,1))
        R.len_is(cnt(a.n),'number of true entries')
        q=fresh('q')
        f=st.facts.add(GE(q,0),LT(q,a.n),EQ(a.at(q),1))
        c.prove(st,And(GE(cnt(q),0),LT(cnt(q),R.n)),'the true entry has a place in the result',f)
        got=read_content(c.ex,f,R.buf.content,cnt(q),0)
        c.prove(st,EQ(got,q),'the m-th entry is the position of the m-th true value (so in increasing order)',f)
QV=fresh('qv')
