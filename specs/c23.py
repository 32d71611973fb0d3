from spec import *
TUS=['tools/jobs.cc']
VAR=56      # sizeof(Job::Variable): name_ at 0, values_ at 32, which_ at 48
def size_of(ex,st,args,name):
    p=args[0]; i,c=ex.buf_index(st.mem[p.obj],p.off,8)
    if c: raise Unsupported('size of a parameter')
    ex.require(st,And(GE(i,0),LT(i,st.mem[p.obj].n)),'parameter inside the list')
    return [(st,'ret',Sel('n',i,0,'I'))]
def select(ex,st,args,name):
    p=args[0]; ex.store(st,Ptr(p.obj,p.off+48),args[1],('i',64),None); return [(st,'ret',None)]
class FakeMod:
    def size(s,t): return 8
def select(ex,st,args,name):
    p=args[0]; ex.store(st,Ptr(p.obj,p.off+48),args[1],('i',64),FakeMod()); return [(st,'ret',None)]
VARS=[('jobs::Job::Variable::size\\(\\) const',size_of),('jobs::Job::Variable::select\\(long\\)',select)]
def job(c,njobs=None,**kw):
    V=c.int('V',0); st=c.st
    b=Buf('vars',VAR,'var',V,init_content('which','I'),1); st.mem['vars']=b
    st.facts.axioms['nonneg:n']=True; st.facts.axioms['n']=lambda a:[GE(a.poly,kw.get('low',0))]
    o=Cells('job',88,'param'); st.mem['job']=o
    o.cells[32]=(8,Ptr('vars',0)); o.cells[40]=(8,Ptr('vars',V*VAR)); o.cells[48]=(8,Ptr('vars',V*VAR))
    J=lambda:0
    for off,nm in((56,'jobs'),(64,'this'),(72,'first'),(80,'last')):
        v=c.int(nm); o.cells[off]=(8,v); setattr(J,nm,v)
    J.V=V; J.ptr=Ptr('job',0); J.n=lambda i: Sel('n',i,0,'I'); J.all=Prod('n',ZERO,V)
    return J
def field(st,off): return st.mem['job'].cells[off][1]
@spec('C23')
def number_of_jobs(c):
    J=job(c)
    for st,r in c.run('jobs::Job::compute_number_of_jobs\\(\\) const',[J.ptr]): c.prove_eq(st,r,J.all,'number of jobs is the product of the sample counts')
number_of_jobs.prims=VARS
def selected(c,st,J,w):
    c.prove_eq(st,field(st,64),w,'the job is the current one')
    q=c.int('q'); f=st.facts.add(GE(q,0),LT(q,J.V),LT(w,J.jobs))
    if feasible(f):
        v=read_content(c.ex,f,st.mem['vars'].content,q,48)
        c.prove(st,EQ(v,Mod(Div(w,Prod('n',ZERO,q)),J.n(q))),'digit of every parameter',f)
    f=st.facts.add(GE(q,0),LT(q,J.V),GE(w,J.jobs))
    if feasible(f):
        v=read_content(c.ex,f,st.mem['vars'].content,q,48)
        c.prove(st,EQ(v,Sel('which',q,48,'I')),'nothing selected beyond the last job',f)
    for off,x in((56,J.jobs),(72,J.first),(80,J.last)): c.prove_eq(st,field(st,off),x,'limits untouched')
@spec('C23')
def select_job(c):
    J=job(c,low=1); w=c.int('w',0)
    for st,_ in c.run('jobs::Job::select_job\\(long\\)',[J.ptr,w]): selected(c,st,J,w)
select_job.prims=VARS
@spec('C23')
def next_job(c):
    J=job(c,low=1); c.assume(GE(J.this,0))
    for st,_ in c.run('jobs::Job::operator\\+\\+\\(\\)',[J.ptr]): selected(c,st,J,J.this+1)
next_job.prims=VARS
@spec('C23')
def to_do(c):
    J=job(c,low=1)
    for st,r in c.run('jobs::Job::to_do\\(\\)',[J.ptr]):
        r=r if isinstance(r,Bool) else NE(r,0)
        c.prove(st,Iff(r,And(GE(J.this,0),LT(J.this,J.jobs),GE(J.this,J.first),LE(J.this,J.last))),'a job is to be done exactly when it exists and lies in the range')
# ---- the parameter object
def variable(c,n):
    o=Cells('var',56,'param'); c.st.mem['var']=o
    o.abs[32]=c._buf('val','double',n,'val','in'); o.abs[40]=c._buf('vald','long',ONE,'vald','in'); o.cells[48]=(8,c.int('w'))
    return Ptr('var',0)
@spec('C23')
def parameter_size(c):
    n=c.int('n',0); p=variable(c,n)
    for st,r in c.run('jobs::Job::Variable::size\\(\\) const',[p]): c.prove_eq(st,r,n,'number of samples')
@spec('C23')
def parameter_select(c):
    n=c.int('n',0); p=variable(c,n); i=c.int('i')
    for st,r in c.run('jobs::Job::Variable::select\\(long\\)',[p,i]): c.prove_eq(st,st.mem['var'].cells[48][1],i,'selected sample')
@spec('C23')
def parameter_value(c):
    n=c.int('n',1); p=variable(c,n); w=c.int('w'); c.assume(GE(w,0),LT(w,n))
    for st,r in c.run('jobs::Job::Variable::value\\(\\) const',[p]): c.prove_eq(st,r,Sel('val',w,0,'R'),'value of the selected sample')
# ---- the constructor: limits of the range, for every number of jobs and every option value
def text(ex,p):
    if not isinstance(p,Ptr) or p.obj is None: return None
    n=p.obj.lstrip('@'); 
    for m in [ex.curmod]:
        g=m.globals.get(n)
        if g and ' c"' in g: return g.split(' c"')[1].split('"')[0].replace('\\00','')
N=Var('N')
def p_strcmp(ex,st,args,name):
    a,b=args; ta=st.mem['argv'].tags.get(a.obj); tb=text(ex,b)
    if ta is None: ta,tb=st.mem['argv'].tags.get(b.obj),text(ex,a)
    if ta is None or tb is None: raise Unsupported('strcmp')
    return [(st,'ret',ZERO if ta==tb else ONE)]
def p_atoi(ex,st,args,name): 
    if args[0].obj not in st.mem['argv'].tags: raise Unsupported('atoi')
    return [(st,'ret',Var('value of '+args[0].obj))]
def p_count(ex,st,args,name): return [(st,'ret',N)]
def p_sel(ex,st,args,name):
    ex.require(st,GE(args[1],0),'precondition of select_job')
    ex.store(st,Ptr(args[0].obj,args[0].off+64),args[1],('i',64),FakeMod()); return [(st,'ret',None)]
def nop(ex,st,args,name): return [(st,'ret',args[0] if args else None)]
def p_exit(ex,st,args,name): return [(st,'abort','exit')]
CTOR=[('strcmp',p_strcmp),('atoi',p_atoi),('jobs::Job::compute_number_of_jobs\\(\\) const',p_count),('jobs::Job::select_job\\(long\\)',p_sel),
      ('std::(__cxx11::basic_string|allocator|__new_allocator|vector<jobs|basic_ostream|ostream).*',nop),('exit',p_exit)]
class Argv(Cells):
    tags={}
    def copy(s):
        o=Argv(s.id,s.size,s.kind); o.cells=dict(s.cells); o.abs=dict(s.abs); o.freed=s.freed; o.tags=s.tags; return o
LINES=['','this','blocks','blocks this','this blocks','first','first last','first blocks','blocks first','this print','last','this first','blocks this last']
OPT={'this':'--this-job','blocks':'--job-blocks','first':'--first-job','last':'--last-job','print':'--print-jobs'}
def bsub(x,m): return x.subst(m) if hasattr(x,'subst') else subst(x,m)
def tiles(c,st,nxt,b,t):
    """the ranges of the blocks 0..b-1 tile 0..N-1 in order: the first starts at 0, each starts where the one before ends, the last ends at N-1 (empty ranges start at N)"""
    f=field(st,72); l=field(st,80)
    c.prove(st,Implies(EQ(t,0),EQ(f,0)),'the first block starts at the first job'); c.prove(st,And(GE(f,0),LE(l,N-1),LE(f,l+1)),'blocks stay inside the jobs')
    c.prove(st,Implies(EQ(t,b-1),EQ(l,N-1)),'the last block ends at the last job')
    if t==ZERO: return
    for f2,l2,facts in nxt:
        h=st.facts.add(*facts).add(LT(t+1,b))
        if feasible(h): c.prove(st,EQ(f2,l+1),'the next block starts where this one ends',h)
@spec('C23',line=LINES)
def limits(c,line):
    c.assume(GE(N,1)); st=c.st; a=Argv('argv',0,'param'); a.tags={}; k=[0]; val={}
    def put(tag):
        nm='arg%d'%k[0]; a.cells[8*k[0]]=(8,Ptr(nm,0)); a.tags[nm]=tag; k[0]+=1; return nm
    put('program')
    for w in line.split():
        put(OPT[w])
        if w!='print': val[w]=Var('value of '+put('a number'))
    st.mem['argv']=a; st.mem['job']=Cells('job',88,'sret')
    b=val.get('blocks'); t=val.get('this',ZERO); fj=val.get('first'); l=val.get('last')
    ok=lambda: c.run('jobs::Job::Job\\(int, char const\\*\\*\\)',[Ptr('job',0),P(k[0]),Ptr('argv',0)],'any' if False else 'return')
    bad=lambda: c.run('jobs::Job::Job\\(int, char const\\*\\*\\)',[Ptr('job',0),P(k[0]),Ptr('argv',0)],'abort')
    if 'print' in line or 'last' in line and 'first' not in line or line in('first blocks','blocks first','this first'): return bad()
    base=c.st
    def when(cond,f):
        c.st=base.copy(); c.assume(*cond); f()
    def expect(first,last,this):
        for st,_ in ok():
            for off,x,nm in((56,N,'number of jobs'),(72,first,'first job of the range'),(80,last,'last job of the range'),(64,this,'current job')):
                if off not in st.mem['job'].cells: raise Failed(nm,'left uninitialised')
                c.prove_eq(st,field(st,off),x,nm)
    if b is not None:
        when([LE(b,0)],bad)
        if t==ZERO:      # no block chosen: the first one
            def first():
                for st,_ in ok(): tiles(c,st,[(field(st,72),field(st,80),st.facts)],b,t)
            when([GE(b,1)],first)
        else:
            def both():
                one=[(st,field(st,72),field(st,80),field(st,64)) for st,_ in ok()]; sub={the_atom(t):t+1}
                for st,f,l,cur in one:
                    c.prove_eq(st,cur,f,'the first job of the block is the current one'); c.prove_eq(st,field(st,56),N,'number of jobs')
                    tiles(c,st,[(subst(f2,sub),subst(l2,sub),[bsub(x,sub) for x in s2.facts.l]) for s2,f2,l2,_ in one],b,t)
            when([GE(b,1),GE(t,0),LT(t,b)],both)
    elif fj is not None:
        when([LT(fj,0)],bad); when([GE(fj,N)],bad)
        if l is None: when([GE(fj,0),LT(fj,N)],lambda: expect(fj,N-1,fj))
        else:
            when([GE(fj,0),LT(fj,N),LT(l,fj)],bad)
            when([GE(fj,0),LT(fj,N),GE(l,fj)],lambda: expect(fj,Ite(LT(l,N),l,N-1),fj))
    elif 'this' in val: when([GE(t,0)],lambda: expect(t,t,t))
    else: expect(ZERO,N-1,ZERO)
limits.prims=CTOR
# ---- lemmas over the contracts (mathematics, no code)
@spec('C23')
def lemma_digits_determine_job(c):
    """two jobs below the product with the same digits are the same: by induction over the parameters, w mod (n_0...n_{k-1}) is a function of the first k digits"""
    w=c.int('w',0); p=c.int('p',1); n=c.int('n',1); st=c.st
    q,r=Div(w,p),Mod(w,p); t,d=Div(q,n),Mod(q,n)
    # step: w mod (p n) = w mod p + p ((w div p) mod n)
    f=st.facts.add(EQ(w,p*q+r),GE(r,0),LT(r,p),GE(q,0),EQ(q,n*t+d),GE(d,0),LT(d,n),GE(t,0))
    c.prove(st,And(EQ(w,p*q+r),GE(r,0),LT(r,p),GE(q,0)),'division by the product so far')
    c.prove(st,And(EQ(q,n*t+d),GE(d,0),LT(d,n),GE(t,0)),'division by the next sample count',st.facts.add(GE(q,0)))
    R=c.int('R'); D=c.int('D'); T=c.int('T'); P0=c.int('P'); n0=c.int('m')
    g=Facts().add(GE(P0,1),GE(n0,1),GE(R,0),LE(R,P0-1),GE(D,0),LE(D,n0-1),GE(P0*(n0-1-D),0))
    c.prove(st,And(GE(R+P0*D,0),LT(R+P0*D,P0*n0)),'the digits so far stay below the product',g)
    c.prove(st,EQ(P0*(n0*T+D)+R,(P0*n0)*T+(R+P0*D)),'the digits so far are the remainder of the product')
    c.prove(st,EQ(Mod(w,ONE),0),'no digits: remainder of 1')
    N0=c.int('N0',1); c.prove(st,EQ(Mod(w,N0),w),'all digits: the job number itself',st.facts.add(LT(w,N0)))
# ---- the text of a parameter, by words: name, minimum, maximum, number of samples
import re
STR='std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> ?>'
def g_set(st,k,v): st.w('ghost').cells[k]=(8,v)
def g_get(st,k): x=st.mem['ghost'].cells.get(k); return x and x[1]
def key(p): return (p.obj,P(p.off).const())
@spec('C23',words=[0,1,2,3,4,5])
def parameter_text(c,words):
    n=P(words) if words<5 else c.int('words',5); c.st.mem['ghost']=Cells('ghost',8,'ghost'); s=c.st.mem['s']=Cells('s',32,'param'); o=c.out(size=56)
    for q in range(4): c.st.mem['word%d'%q]=Cells('word%d'%q,32,'param')
    num=lambda q: Var('number %d'%q,'R'); integer=lambda q: Var('integer %d'%q)
    def word(p):
        if not(isinstance(p,Ptr) and isinstance(p.obj,str) and p.obj.startswith('word')): raise Unsupported('word of the line')
        return int(p.obj[4:])
    def split(ex,st,a,nm):
        ok=a[1].obj=='s'; ex.log('the line is split',ok)
        if not ok: raise Failed('the line is split')
        g_set(st,('list',)+key(a[0]),True)
    def lst(st,p):
        if not g_get(st,('list',)+key(p)): raise Unsupported('list of words')
    def size(ex,st,a,nm): lst(st,a[0]); return n
    def at(ex,st,a,nm):
        lst(st,a[0]); ex.require(st,And(GE(a[1],0),LT(a[1],n)),'the word exists')
        if not a[1].is_const() or a[1].const()>3: raise Unsupported('word of the line')
        return Ptr('word%d'%a[1].const(),0)
    def copy(ex,st,a,nm): g_set(st,('str',)+key(a[0]),word(a[1]) if isinstance(a[1].obj,str) and a[1].obj.startswith('word') else g_get(st,('str',)+key(a[1])))
    def made(ex,st,a,nm): g_set(st,('var',)+key(a[0]),(word(a[1]) if isinstance(a[1].obj,str) and a[1].obj.startswith('word') else g_get(st,('str',)+key(a[1])),)+tuple(a[2:]))
    def vcopy(ex,st,a,nm): g_set(st,('var',)+key(a[0]),'none' if 'no_variable' in str(a[1].obj) else g_get(st,('var',)+key(a[1])))
    V='jobs::Job::Variable::'; L='std::vector<%s, std::allocator<%s ?> ?>::'%(STR,STR)
    c.ex.prims[0:0]=[(re.compile(p),f) for p,f in(('split_string\\(.*\\)',split),(L+'size\\(\\) const',size),(L+'(operator\\[\\]|at)\\(unsigned long\\)( const)?',at),(L+'~vector\\(\\)',nop),(STR+'::c_str\\(\\) const',nop),(STR+'::~basic_string\\(\\)',nop),
      (STR+'::basic_string\\(%s (const)?&+\\)'%STR,copy),('std::(basic_ostream|ostream).*',nop),('atof',lambda ex,st,a,nm: num(word(a[0]))),('atoi',lambda ex,st,a,nm: integer(word(a[0]))),(V+'Variable\\(%s, double, double, long\\)'%STR,made),(V+'Variable\\(jobs::Job::Variable const&\\)',vcopy),(V+'~Variable\\(\\)',nop))]
    for st,_ in c.run('jobs::Job::parse_line\\(.*\\)',[o,Ptr('s',0)]):
        v=g_get(st,('var',)+key(o))
        if words in(0,1,5):
            ok=v=='none'; c.ex.log('not a parameter',ok)
            if not ok: raise Failed('not a parameter')
            continue
        ok=isinstance(v,tuple) and v[0]==0; c.ex.log('the first word is the name',ok)
        if not ok: raise Failed('the first word is the name')
        c.prove_eq(st,v[1],num(1),'minimum'); c.prove_eq(st,v[2],num(1 if words==2 else 2),'maximum'); c.prove_eq(st,v[3],ONE if words==2 else P(10) if words==3 else integer(3),'number of samples')
# ---- looking a parameter up by its name: equality of names is a relation
def same_name(q): return NE(Sel('same name',q,0,'I'),0)
def lookup(c):
    J=job(c); c.st.mem['name']=Cells('name',32,'param')
    def eq(ex,st,a,nm):
        for x,y in((a[0],a[1]),(a[1],a[0])):
            if x.obj=='vars' and y.obj=='name':
                i,off=ex.buf_index(st.mem['vars'],x.off,8)
                if off: raise Unsupported('name of a parameter')
                ex.require(st,And(GE(i,0),LT(i,J.V)),'parameter inside the list'); return same_name(i)
        raise Unsupported('comparison of names')
    c.ex.prims[0:0]=[(re.compile('bool std::operator==<char.*>\\(%s const&, %s const&\\)'%(STR,STR)),eq)]; return J
@spec('C23')
def find_parameter(c):
    J=lookup(c); q=c.int('q',0)
    for st,r in c.run('jobs::Job::find_variable\\(.*\\) const',[J.ptr,Ptr('name',0)]):
        f=st.facts.add(LT(q,J.V))
        if r.obj is None:
            if feasible(f): c.prove(st,Not(same_name(q)),'no parameter has the name',f)
            continue
        i,off=c.ex.buf_index(st.mem['vars'],r.off,8); c.prove(st,And(GE(i,0),LT(i,J.V),same_name(i),EQ(P(off),0)),'the parameter found has the name')
        f=f.add(LT(q,i))
        if feasible(f): c.prove(st,Not(same_name(q)),'it is the first with the name',f)
def found(c,some):
    """find_variable by contract (find_parameter): a parameter of the list, or none"""
    J=job(c); c.st.mem['name']=Cells('name',32,'param'); k=c.int('k',0)
    if some: c.assume(LT(k,J.V))
    def look(ex,st,a,nm):
        ok=a[0].obj=='job' and a[1].obj=='name'; ex.log('the parameter asked for is looked up',ok)
        if not ok: raise Failed('the parameter asked for is looked up')
        return Ptr('vars',k*VAR) if some else Ptr(None,0)
    def value(ex,st,a,nm):
        i,off=ex.buf_index(st.mem['vars'],a[0].off,8)
        if off: raise Unsupported('value of a parameter')
        ex.require(st,And(GE(i,0),LT(i,J.V)),'parameter inside the list'); return Sel('value',i,0,'R')
    c.ex.prims[0:0]=[(re.compile(p),f) for p,f in(('jobs::Job::find_variable\\(.*\\) const',look),('jobs::Job::Variable::value\\(\\) const',value),('std::(basic_ostream|ostream).*',nop))]
    return J,Sel('value',k,0,'R')
@spec('C23',some=[0,1])
def value_by_name(c,some):
    J,v=found(c,some)
    for st,r in c.run('jobs::Job::get_value\\(.*\\) const',[J.ptr,Ptr('name',0)],expect='return' if some else 'abort'):
        if some: c.prove_eq(st,r,v,'current value of the parameter')
@spec('C23',some=[0,1])
def value_by_name_with_default(c,some):
    J,v=found(c,some); d=c.real('default')
    for st,r in c.run('jobs::Job::get_value_with_default\\(.*\\) const',[J.ptr,Ptr('name',0),d]): c.prove_eq(st,r,v if some else d,'current value of the parameter, or the default')
@spec('C23',tus=['tools/jobs.cc','indices/linspace_d.cc'],n=['0','1','>=2'])
def new_parameter(c,n):
    c.st.mem['name']=Cells('name',32,'param'); c.st.mem['ghost']=Cells('ghost',8,'ghost'); o=c.out(size=56); a,b=c.real('min'),c.real('max'); m=P(int(n)) if n in'01' else c.int('n',2)
    c.ex.prims[0:0]=[(re.compile(STR+'::basic_string\\(%s (const)?&+\\)'%STR),lambda ex,st,x,nm: g_set(st,('str',)+key(x[0]),x[1].obj)),(re.compile(STR+'::~basic_string\\(\\)'),nop)]
    for st,_ in c.run('jobs::Job::Variable::Variable\\(.*, double, double, long\\)',[o,Ptr('name',0),a,b,m]):
        ok=g_get(st,('str',o.obj,0))=='name'; c.ex.log('the name is kept',ok)
        if not ok: raise Failed('the name is kept')
        R=c.tview(st,Ptr(o.obj,32)); R.shape([m],'samples'); c.prove_eq(st,st.mem[o.obj].cells[48][1],ZERO,'the first sample is selected')
        if n=='1': R.elems([ONE],lambda q:q,lambda cc,q:a)
        if n=='>=2': R.elems([m],lambda q:q,lambda cc,q:a+q*(b-a)*Inv(m-1))
# ---- words of a text: maximal runs of characters that are not separators
import given as G
from sorting import related
SEPS=(32,9,10,44,59)
def ch(i): return Sel('text',i,0,'I')
def sep(i): return Or(*[EQ(ch(i),x) for x in SEPS])
class Words(G.Inv):
    cells_change=True
    def match(s):
        z=[r for r,v in s.init.items() if v==ZERO]
        if len(s.init)!=1 or not z or any(n[0]=='splitting' for n in s.st.notes): return False
        s.m=z[0]; return True
    def i(s,v): return v.phi[s.m]
    def k(s,v): return v.st.mem['ghost'].cells['k'][1]
    def candidates(s,r): return []
    def writes(s): return ['words']
    def ghosts0(s): return {'w':ZERO}
    def update(s,g,v,vp,f): return {'w':Ite(And(LE(s.i(v),s.p),LT(s.p,s.i(vp))),s.k(v),g['w'])}
    def enter(s,st,v,g): st.notes=tuple(st.notes)+(('splitting',),)
    def leave(s,o,g,v): o[1].notes=tuple(o[1].notes)+(('words',g['w'],s.k(v),s.i(v)),)
    def variant(s,v,g): return s.l-s.i(v)
    def clauses(s):
        i,k,p=s.i,s.k,s.p; b=lambda v,q,f: v.rd('words',q,0,f); e=lambda v,q,f: v.rd('words',q,8,f); done=lambda v,g,f: LT(p,i(v))
        return [G.fact('position in the text',lambda v,g,f: And(GE(i(v),0),LE(i(v),s.l),GE(k(v),0),Implies(EQ(k(v),0),EQ(i(v),0)))),
          G.fact('end of the last word',lambda v,g,f: And(EQ(i(v),e(v,k(v)-1,f)),Or(EQ(i(v),s.l),sep(i(v)))),lambda v,g,f: GT(k(v),0)),
          G.every('words are inside the text',lambda v,g,f: (ZERO,k(v)),lambda v,g,f,q: And(LE(0,b(v,q,f)),LT(b(v,q,f),e(v,q,f)),LE(e(v,q,f),i(v)))),
          G.every('words are apart',lambda v,g,f: (ZERO,k(v)-1),lambda v,g,f,q: LT(e(v,q,f),b(v,q+1,f))),
          G.fact('every other character is in a word',lambda v,g,f: Or(sep(p),And(GE(g['w'],0),LT(g['w'],k(v)),LE(b(v,g['w'],f),p),LT(p,e(v,g['w'],f)))),done),
          G.every('no separator is in a word',lambda v,g,f: (ZERO,k(v)),lambda v,g,f,q: Implies(sep(p),Not(And(LE(b(v,q,f),p),LT(p,e(v,q,f))))))]
@spec('C23')
def words_of_a_text(c):
    l=c.int('l',0); p=c.int('p',0); q=c.int('q',0); c.assume(LT(p,l)); g=c.st.mem['ghost']=Cells('ghost',8,'ghost'); g.cells['k']=(8,ZERO)
    c.st.mem['s']=Cells('s',32,'param'); c.st.mem['text']=Buf('text',1,'char',l,init_content('text','I')); c.st.mem['words']=Buf('words',16,'long',c.int('most words',0),undef_content()); o=c.out(size=24)
    class W(Words): pass
    W.l,W.p=l,p; c.ex.invs=[W]
    def at(ex,st,a,nm): ex.require(st,And(GE(a[1],0),LT(a[1],l)),'character inside the text'); return Ptr('text',a[1])
    def substr(ex,st,a,nm):
        ex.require(st,And(GE(a[2],0),LE(a[2],l)),'part of the text'); st.w(a[0].obj).cells['part']=(8,(a[2],a[3]))
    def push(ex,st,a,nm):
        i,n=st.mem[a[1].obj].cells['part'][1]; k=g_get(st,'k'); w=st.w('words'); end=Ite(LE(i+n,l),i+n,l)
        end=i+n if prove(st.facts,LE(i+n,l)) else end
        w.content=Content(Content(w.content,Eff('store',(),TRUE,k,0,i)),Eff('store',(),TRUE,k,8,end)); st.assume(LT(k,w.n)); g_set(st,'k',k+1)
    L='std::vector<%s, std::allocator<%s ?> ?>::'%(STR,STR)
    c.ex.prims[0:0]=[(re.compile(x),f) for x,f in((L+'~?vector\\(\\)',nop),(STR+'::size\\(\\) const',lambda ex,st,a,nm: l),(STR+'::operator\\[\\]\\(unsigned long\\) const',at),(STR+'::substr\\(unsigned long, unsigned long\\) const',substr),(L+'push_back\\(%s(&&| const&)\\)'%STR,push),(STR+'::~basic_string\\(\\)',nop))]
    for st,_ in c.run('split_string\\(.*\\)',[o,Ptr('s',0)]):
        n=[x for x in st.notes if x[0]=='words'][-1]; w=n[1]; k=g_get(st,'k'); rd=lambda q,f,cc: read_content(c.ex,f,st.mem['words'].content,P(q),cc); f=st.facts
        c.prove(st,Or(sep(p),And(GE(w,0),LT(w,k),LE(rd(w,f,0),p),LT(p,rd(w,f,8)))),'a character that is not a separator belongs to a word')
        f=st.facts.add(LT(q,k))
        if feasible(f): c.prove(st,And(LE(0,rd(q,f,0)),LT(rd(q,f,0),rd(q,f,8)),LE(rd(q,f,8),l)),'words are not empty',f); c.prove(st,Implies(sep(p),Not(And(LE(rd(q,f,0),p),LT(p,rd(q,f,8))))),'a separator belongs to no word',f)
        f=st.facts.add(LT(q,k-1))
        if feasible(f): c.prove(st,LT(rd(q,f,8),rd(q+1,f,0)),'words are in order and apart',f)
# ---- parameters of a file: one for every line that is not blank, up to the first wrong line
class Lines(G.Inv):
    cells_change=True
    def match(s):
        r=[r for r,v in s.init.items() if v==ONE]
        if len(r)!=1 or len([v for v in s.init.values() if v is not UNDEF])!=1: return False
        s.m=r[0]; return True
    def t(s,v): return v.phi[s.m]-1
    def k(s,v): return v.st.mem['ghost'].cells['k'][1]
    def candidates(s,r): return []
    def writes(s): return ['list']
    def ghosts0(s): return {'w':ZERO}
    def update(s,g,v,vp,f): return {'w':Ite(EQ(s.t(v),s.p),s.k(v),g['w'])}
    def leave(s,o,g,v): o[1].notes=tuple(o[1].notes)+(('lines',g['w'],s.k(v),s.t(v)),)
    def variant(s,v,g): return s.L-s.t(v)
    def clauses(s):
        t,k=s.t,s.k; at=lambda v,q,f: v.rd('list',q,0,f)
        return [G.fact('lines read',lambda v,g,f: And(GE(t(v),0),LE(t(v),s.L),GE(k(v),0),LE(k(v),t(v)),EQ(g_get(v.st,'t'),t(v)))),
          G.every('parameters in the order of the lines',lambda v,g,f: (ZERO,k(v)-1),lambda v,g,f,q: LT(at(v,q,f),at(v,q+1,f))),
          G.every('parameters come from lines read',lambda v,g,f: (ZERO,k(v)),lambda v,g,f,q: And(GE(at(v,q,f),0),LT(at(v,q,f),t(v)),NE(Sel('words in line',at(v,q,f),0,'I'),0))),
          G.fact('a line that is not blank has its parameter',lambda v,g,f: And(NE(Sel('named',s.p,0,'I'),0),GE(g['w'],0),LT(g['w'],k(v)),EQ(at(v,g['w'],f),s.p)),lambda v,g,f: And(LT(s.p,t(v)),NE(Sel('words in line',s.p,0,'I'),0)))]
@spec('C23')
def parameters_of_a_file(c):
    L=c.int('lines',0); p=c.int('p',0); q=c.int('q',0); c.assume(LT(p,L)); g=c.st.mem['ghost']=Cells('ghost',8,'ghost'); g.cells['k']=(8,ZERO); g.cells['t']=(8,ZERO)
    c.st.mem['file']=Cells('file',16,'param'); c.st.mem['data']=Cells('data',24,'param'); c.st.mem['list']=Buf('list',8,'long',c.int('most parameters',0),undef_content())
    c.st.mem['streamvt']=Cells('streamvt',64,'param')
    class W(Lines): pass
    W.L,W.p=L,p; c.ex.invs=[W]
    nm=lambda t: Sel('named',t,0,'I'); ws=lambda t: Sel('words in line',t,0,'I'); c.st.facts.axioms['nonneg:words in line']=True; c.st.facts.axioms['words in line']=lambda a: [GE(a.poly,0)]
    c.st.facts.axioms['nonneg:named']=True; c.st.facts.axioms['named']=lambda a: [GE(a.poly,0)]
    def line(ex,st,a):     # the line the buffer holds
        ok=a.obj is not None and ('line',)+key(a) in st.mem['ghost'].cells; ex.log('the buffer holds a line',ok)
        if not ok: raise Failed('the buffer holds a line')
        return g_get(st,('line',)+key(a))
    def getline(ex,st,a,n):
        ok=a[0].obj=='file'; ex.log('lines of the file',ok)
        if not ok: raise Failed('lines of the file')
        t=g_get(st,'t'); out=[]
        for more in(1,0):
            s2=st.copy(); s2.assume(LT(t,L) if more else GE(t,L))
            if not feasible(s2.facts): continue
            if more: g_set(s2,'t',t+1); g_set(s2,('line',)+key(a[1]),t)
            g_set(s2,'good',P(more)); out.append((s2,'ret',a[0]))
        return out
    def split(ex,st,a,n): g_set(st,('list',)+key(a[0]),line(ex,st,a[1]))
    def size(ex,st,a,n): return ws(g_get(st,('list',)+key(a[0])))
    def parse(ex,st,a,n): g_set(st,('var',)+key(a[0]),line(ex,st,a[1]))
    def name(ex,st,a,n): return a[0]
    def length(ex,st,a,n): return nm(g_get(st,('var',)+key(a[0])))
    def push(ex,st,a,n):
        ok=a[0].obj=='data'; ex.log('into the list asked for',ok)
        if not ok: raise Failed('into the list asked for')
        k=g_get(st,'k'); w=st.w('list'); w.content=Content(w.content,Eff('store',(),TRUE,k,0,g_get(st,('var',)+key(a[1])))); st.assume(LT(k,w.n)); g_set(st,'k',k+1)
    LV='std::vector<%s, std::allocator<%s ?> ?>::'%(STR,STR); V='jobs::Job::Variable::'
    c.ex.prims[0:0]=[(re.compile(x),f) for x,f in((STR+'::basic_string\\(\\)',nop),(STR+'::~basic_string\\(\\)',nop),(LV+'~vector\\(\\)',nop),(LV+'size\\(\\) const',size),(LV+'empty\\(\\) const',lambda ex,st,a,n: Ite(EQ(size(ex,st,a,n),0),1,0)),('std::basic_istream<.*std::getline<.*',getline),('std::basic_ios<.*::operator bool\\(\\) const',lambda ex,st,a,n: g_get(st,'good')),
      ('split_string\\(.*\\)',split),('jobs::Job::parse_line\\(.*\\)',parse),(V+'name(\\[abi:cxx11\\])?\\(\\) const',name),(STR+'::size\\(\\) const',length),(V+'~Variable\\(\\)',nop),('std::vector<jobs::Job::Variable, .*>::push_back\\(.*\\)',push))]
    c.st.mem['file'].cells[0]=(8,Ptr('streamvt',24)); c.st.mem['streamvt'].cells[0]=(8,ZERO)
    for st,r in c.run('jobs::Job::parse_file\\(.*\\)',[Ptr('file',0),Ptr('data',0)]):
        n=[x for x in st.notes if x[0]=='lines'][-1]; w=n[1]; k=g_get(st,'k'); at=lambda q,f: read_content(c.ex,f,st.mem['list'].content,P(q),0); f=st.facts
        t=n[3]
        c.prove(st,Or(And(EQ(r,0),EQ(t,L)),And(EQ(r,t+1),LT(t,L),NE(ws(t),0),EQ(nm(t),0))),'number of the first wrong line, or zero')
        f=st.facts.add(LT(p,t),NE(ws(p),0))
        if feasible(f): c.prove(st,And(NE(nm(p),0),GE(w,0),LT(w,k),EQ(at(w,f),p)),'every line that is not blank gives its parameter',f)
        f=st.facts.add(LT(q,k))
        if feasible(f): c.prove(st,And(GE(at(q,f),0),LT(at(q,f),t),NE(ws(at(q,f)),0)),'every parameter comes from a line',f)
        f=st.facts.add(LT(q,k-1))
        if feasible(f): c.prove(st,LT(at(q,f),at(q+1,f)),'parameters in the order of the lines',f)
# ---- the parameters given on a command line: those of every --variable and of every --job file, in order; a wrong one stops
OPT2=dict(OPT,variable='--variable',job='--job')
@spec('C23',line=['variable','variable variable','job','job variable','variable job','variable this variable','job job variable','first variable last'],wrong=[0,1])
def parameters_of_a_command_line(c,line,wrong):
    c.assume(GE(N,1)); st=c.st; a=Argv('argv',0,'param'); a.tags={}; k=[0]; want=[]; st.mem['ghost']=Cells('ghost',8,'ghost'); g_set(st,'log',())
    def put(tag):
        nm='arg%d'%k[0]; a.cells[8*k[0]]=(8,Ptr(nm,0)); a.tags[nm]=tag; st.mem[nm]=Cells(nm,8,'param'); k[0]+=1; return nm
    put('program'); val={}
    for w in line.split():
        put(OPT2[w]); x=put('a text'); val[w]=Var('value of '+x)
        if w in('variable','job'): want.append((w,x))
    st.mem['argv']=a; st.mem['job']=Cells('job',88,'sret'); good=lambda x: Var('result of '+x[1])
    for i,x in enumerate(want): c.assume((EQ if (x[0]=='job')!=(wrong and i==len(want)-1) else NE)(good(x),0))
    if 'this' in val: c.assume(GE(val['this'],0))
    if 'first' in val: c.assume(GE(val['first'],0),LT(val['first'],N),GE(val['last'],val['first']))
    def get(st,*q):
        x=g_get(st,q)
        if x is None: raise Unsupported('text that is not an argument')
        return x
    def push(ex,st,x,n):
        ok=(x[0].obj,P(x[0].off).const())==('job',32); ex.log('into the list of the job',ok)
        if not ok: raise Failed('into the list of the job')
        g_set(st,'log',g_get(st,'log')+(('variable',get(st,'var',*key(x[1]))),))
    def parse_file(ex,st,x,n):
        ok=(x[1].obj,P(x[1].off).const())==('job',32); ex.log('into the list of the job',ok)
        if not ok: raise Failed('into the list of the job')
        f=get(st,'file',*key(x[0])); g_set(st,'log',g_get(st,'log')+(('job',f),)); return Var('result of '+f)
    def count(ex,st,x,n): g_set(st,'counted',g_get(st,'log')); return N
    pr=[(STR+'::basic_string(<std::allocator<char> ?>)?\\(char const\\*, std::allocator<char> const&\\)',lambda ex,st,x,n: g_set(st,('str',)+key(x[0]),x[1].obj)),('std::basic_ifstream<.*::basic_ifstream\\(char const\\*, std::_Ios_Openmode\\)',lambda ex,st,x,n: g_set(st,('file',)+key(x[0]),x[1].obj)),
      ('jobs::Job::parse_line\\(.*\\)',lambda ex,st,x,n: g_set(st,('var',)+key(x[0]),get(st,'str',*key(x[1])))),('jobs::Job::Variable::name(\\[abi:cxx11\\])?\\(\\) const',lambda ex,st,x,n: x[0]),(STR+'::size\\(\\) const',lambda ex,st,x,n: Var('result of '+get(st,'var',*key(x[0])))),
      ('jobs::Job::Variable::~Variable\\(\\)',nop),('std::vector<jobs::Job::Variable, .*>::push_back\\(.*\\)',push),('jobs::Job::parse_file\\(.*\\)',parse_file),('jobs::Job::compute_number_of_jobs\\(\\) const',count),('std::basic_ifstream<.*::~basic_ifstream\\(\\)',nop)]
    c.ex.prims[0:0]=[(re.compile(p),f) for p,f in pr]
    for st,_ in c.run('jobs::Job::Job\\(int, char const\\*\\*\\)',[Ptr('job',0),P(k[0]),Ptr('argv',0)],'abort' if wrong else 'return'):
        ok=g_get(st,'counted')==tuple(want); c.ex.log('parameters in the order of the command line, before the jobs are counted',ok)
        if not ok: raise Failed('parameters in the order of the command line, before the jobs are counted',str(g_get(st,'log')))
parameters_of_a_command_line.prims=CTOR
