from spec import *
from symexec import read_content
from bitvec import *
import z3
TUS=['@c24','rand/rand64.cc','rand/rand.cc','tensor/tensor_d.cc','tensor/tensor_z.cc','sparse/sparse_d.cc','sparse/sparse_z.cc']
NN=312; MM=156; W=64
B=lambda k: z3.BitVecVal(k,64)
# ---------------------------------------------------------------- reference: MT19937-64 (Nishimura, Matsumoto 2004), over z3 terms
def step(mt,i):
    x=(bv(mt[i],64)&B(0xFFFFFFFF80000000))|(bv(mt[(i+1)%NN],64)&B(0x7FFFFFFF))
    return bv(mt[(i+MM)%NN],64)^z3.LShR(x,1)^z3.If(z3.Extract(0,0,x)==1,B(0xB5026F5AA96619E9),B(0))
def twist(N,w):
    mt=list(w)
    for i in range(NN): mt[i]=N.let(z3.simplify(step(mt,i)),'mt')
    return mt
def temper(x):
    x=bv(x,64); x=x^(z3.LShR(x,29)&B(0x5555555555555555)); x=x^((x<<17)&B(0x71D67FFFEDA60000)); x=x^((x<<37)&B(0xFFF7EEE000000000)); return x^z3.LShR(x,43)
def seeded(N,seed):
    mt=[seed]
    for i in range(1,NN):
        p=mt[-1]
        mt.append((6364136223846793005*(p^(p>>62))+i)&MASK(64) if isc(p) else N.let(z3.simplify(B(6364136223846793005)*(p^z3.LShR(p,62))+i),'mt'))
    return mt
def by_array(N,key):
    mt=seeded(N,19650218); i=1; j=0; L=len(key)
    f=lambda x: x^z3.LShR(x,62)
    for k in range(max(NN,L)):
        mt[i]=N.let(z3.simplify((bv(mt[i],64)^(f(bv(mt[i-1],64))*B(3935559000370003845)))+bv(key[j],64)+j),'mt'); i+=1; j+=1
        if i>=NN: mt[0]=mt[NN-1]; i=1
        if j>=L: j=0
    for k in range(NN-1):
        mt[i]=N.let(z3.simplify((bv(mt[i],64)^(f(bv(mt[i-1],64))*B(2862933555777941757)))-i),'mt'); i+=1
        if i>=NN: mt[0]=mt[NN-1]; i=1
    mt[0]=1<<63; return mt
# ---------------------------------------------------------------- the generator's state: its array of 312 words and its counter
def names(c):
    m=[m for m in c.ex.prog.mods if 'rand64' in m.path][0]
    arr=[g for g,t in m.globals.items() if re.search(r'\[312 x i64\]',t)]; cnt=[g for g,t in m.globals.items() if re.search(r'\bglobal i(32|64) %d\b'%(NN+1),t)]
    if len(arr)!=1 or len(cnt)!=1: raise Failed('the state of the generator is an array of 312 words and a counter')
    w=int(re.search(r'\bglobal i(32|64) ',m.globals[cnt[0]]).group(1))
    return (m.path,arr[0]),(m.path,cnt[0]),w
def mangled(c,dem):
    l=c.ex.prog.by_dem.get(dem)
    if not l: raise Failed('function '+dem+' exists')
    return l[0]
def setup(c,mti,contracts=()):
    b=Bits(c,contracts); st=State(); A,C,w=names(c)
    ws=[b.N.fresh('w%d'%i,64) for i in range(NN)]
    st.mem[A]={8*i:(8,ws[i]) for i in range(NN)}
    st.mem[C]={0:(w//8,mti if isc(mti) else b.N.fresh('mti',w))}
    b.keep={}
    return b,st,ws,A,C
def one(c,b,st,name,args):
    outs=b.call(st,mangled(c,name),args); c.nret+=len(outs)
    return outs
def same_word(b,st,got,want,name):
    if (isc(got) and isc(want) and got==want) or (not isc(got) and not isc(want) and got.eq(want)): b.log(name,True,'names'); return
    b.prove(st,bv(got,64)==bv(want,64),name)
def state_is(b,st,A,C,mt,mti):
    for i in range(NN): same_word(b,st,st.mem[A][8*i][1],mt[i],'state word %d follows the reference'%i)
    b.prove(st,st.mem[C][0][1]==mti,'position in the state')
    for k,o in st.mem.items():          # constant tables stay what they are
        if k not in(A,C) and k[0]!='stack': b.prove(st,o==b.initial(k),'tables are not changed')
@spec('C24','init_genrand(seed)',TUS)
def init(c):
    b,st,ws,A,C=setup(c,None); seed=b.N.fresh('seed',64); mt=seeded(b.N,seed)
    outs=one(c,b,st,'tensor::init_genrand(unsigned long)',[seed])
    c.ex.log('seeding ends',len(outs)==1)
    for st,_ in outs: state_is(b,st,A,C,mt,NN)
@spec('C24','init_by_array(key, length)',TUS,n=[1,2,5,312,313])
def init_array(c,n):
    b,st,ws,A,C=setup(c,None); key=[b.N.fresh('key%d'%i,64) for i in range(n)]; mt=by_array(b.N,key)
    st.mem[('stack','key')]={8*i:(8,key[i]) for i in range(n)}
    for st,_ in one(c,b,st,'tensor::init_by_array(unsigned long*, int)',[('ptr',('stack','key'),0),n]):
        state_is(b,st,A,C,mt,NN)
        for i in range(n): same_word(b,st,st.mem[('stack','key')][8*i][1],key[i],'the key is not changed')
@spec('C24','genrand_int64() inside the state',TUS)
def draw(c):
    for k in range(NN):
        b,st,ws,A,C=setup(c,k)
        outs=one(c,b,st,'tensor::genrand_int64()',[])
        if len(outs)!=1: raise Failed('one outcome')
        st,r=outs[0]; b.prove(st,bv(r,64)==temper(ws[k]),'output %d is the tempered state word'%k)
        b.prove(st,st.mem[C][0][1]==k+1,'position in the state')
        if not all(st.mem[A][8*i][1] is ws[i] or st.mem[A][8*i][1].eq(ws[i]) for i in range(NN)): raise Failed('the state is kept between refills')
    b.log('the state is kept between refills',True)
@spec('C24','genrand_int64() at the end of the state',TUS,k=[NN,NN+1])
def refill(c,k):
    b,st,ws,A,C=setup(c,k); mt=twist(b.N,ws if k==NN else seeded(b.N,5489))
    outs=one(c,b,st,'tensor::genrand_int64()',[])
    if len(outs)!=1: raise Failed('one outcome')
    st,r=outs[0]; state_is(b,st,A,C,mt,1); b.prove(st,bv(r,64)==temper(mt[0]),'output is the tempered first word')
# ---------------------------------------------------------------- conversions, for every output word of the generator
def g64(b,st,args):
    b.drawn=getattr(b,'drawn',0)+1; x=b.N.fresh('x%d'%b.drawn,64,True); st.events=st.events+[('draw',x)]; return [(st,x)]
def setter(b,st,args): st.events=st.events+[('seed',args[0])]; return [(st,None)]
def g_array(b,st,args): st.events=st.events+[('array',args[0],args[1])]; return [(st,None)]
DRAW=[(r'tensor::genrand_int64\(\)',g64)]
def draws(st): return [e[1] for e in st.events if e[0]=='draw']
def in01(b,st,r,name='number in [0,1)'):
    if isinstance(r,Fraction): b.prove(st,0<=r<1,name); return
    if r.e>0: raise Failed(name)
    n=bv(r.n,64); b.prove(st,z3.ULT(n,z3.BitVecVal(1<<-r.e,n.size())) if -r.e<n.size() else True,name)
@spec('C24','conversions of an output word',TUS)
def conv(c):
    def run(f):
        b=Bits(c,DRAW); st=State(); outs=one(c,b,st,f,[])
        if not outs: raise Failed('returns')
        return b,outs
    for f,g in(('tensor::genrand_int63()',lambda x: z3.LShR(x,1)),('unsigned long tensor::rand<unsigned long>()',lambda x: x),('long tensor::rand<long>()',lambda x: z3.LShR(x,1)),
               ('unsigned int tensor::rand<unsigned int>()',lambda x: z3.Extract(31,0,x)),('int tensor::rand<int>()',lambda x: z3.Extract(32,1,x))):
        b,outs=run(f)
        for st,r in outs:
            d=draws(st); b.prove(st,len(d)==1,'one draw'); b.prove(st,r==g(d[0]),f+' are the bits of one output of the generator')
@spec('C24','rand<real>() is in [0,1)',TUS,f=['double tensor::rand<double>()','float tensor::rand<float>()','tensor::genrand_res53()','std::complex<double> tensor::rand<std::complex<double> >()'])
def reals(c,f):
    n=2 if 'complex' in f else 1
    b=Bits(c,DRAW); st=State(); outs=one(c,b,st,f,[])
    if not outs: raise Failed('returns')
    for st,r in outs:
        b.prove(st,len(draws(st))==n,'%d draw%s'%(n,'s' if n>1 else ''))
        for q in(r if isinstance(r,list) else [r]): in01(b,st,q)
# ---------------------------------------------------------------- bounded integers
@spec('C24','rand<integer>(upper)',TUS,t=['int','long','unsigned long'])
def upto(c,t):
    w=32 if t=='int' else 64; s=t[0]!='u'
    f='%s tensor::rand<%s>(%s)'%(t,t,t)
    b=Bits(c,DRAW); st=State(); u=b.N.fresh('upper',w)
    if s: st.pc.append(u>=0)
    outs=one(c,b,st,f,[u])
    if len(outs)<2: raise Failed('positive and zero bounds return')
    for st,r in outs:
        r=bv(r,w)
        b.prove(st,z3.Implies(u!=0,z3.And(r>=0,r<u) if s else z3.ULT(r,u)),'result in [0, upper)')
        b.prove(st,z3.Implies(u==0,r==0),'upper = 0 gives 0')
@spec('C24','rand<integer>(lower, upper)',TUS,t=['int','long','unsigned long'])
def between(c,t):
    w=32 if t=='int' else 64; s=t[0]!='u'
    f='%s tensor::rand<%s>(%s, %s)'%(t,t,t,t)
    b=Bits(c,DRAW); st=State(); l=b.N.fresh('lower',w); u=b.N.fresh('upper',w)
    if s: st.pc+=[l<u,z3.SignExt(1,u)-z3.SignExt(1,l)==z3.SignExt(1,u-l)]     # the length of the interval fits its type
    else: st.pc.append(z3.ULT(l,u))
    outs=one(c,b,st,f,[l,u])
    if not outs: raise Failed('returns')
    for st,r in outs: b.prove(st,z3.And(bv(r,w)>=l,bv(r,w)<u) if s else z3.And(z3.UGE(bv(r,w),l),z3.ULT(bv(r,w),u)),'result in [lower, upper)')
# ---------------------------------------------------------------- seeding
@spec('C24','set_seed(seed)',TUS)
def set_seed(c):
    b=Bits(c,DRAW+[(r'tensor::init_genrand\(unsigned long\)',setter)]); st=State(); x=b.N.fresh('seed',64)
    for st,_ in one(c,b,st,'tensor::set_seed(unsigned long)',[x]):
        b.prove(st,len(st.events)==1 and st.events[0][0]=='seed','the generator is seeded, and nothing is drawn'); b.prove(st,bv(st.events[0][1],64)==x,'the generator gets the whole seed')
EXT=('ptr',('ext','text'),0)
def env_c(b,st,args):
    s2=st.copy(); st.events=st.events+[('env',)]; return [(st,EXT),(s2,('ptr',None,0))]
def atoi_c(b,st,args): b.seedint=b.N.fresh('RANDSEED',32); return [(st,b.seedint)]
def anyfile(b,st,args):
    s2=st.copy(); return [(st,('ptr',('ext','file'),0)),(s2,('ptr',None,0))]
def read_c(b,st,args):
    o=st.mem[args[0][1]]
    for k in list(o): o[k]=(o[k][0],b.N.fresh('entropy%d'%k,8*o[k][0]))
    return [(st,args[2])]
def num(name,w): return lambda b,st,args: [(st,b.N.fresh(name,w))]
OS=[('getenv',env_c),('atoi',atoi_c),('fopen',anyfile),('fread',read_c),('fclose',num('closed',32)),('time',num('clock',64)),(r'std::.*',lambda b,st,args: [(st,args[0])])]
@spec('C24','rand_reseed()',TUS)
def reseed(c):
    b=Bits(c,OS+DRAW+[(r'tensor::init_genrand\(unsigned long\)',setter),(r'tensor::init_by_array\(unsigned long\*, int\)',g_array)]); st=State()
    outs=one(c,b,st,'tensor::rand_reseed()',[]); seen=set()
    for st,_ in outs:
        e=[x for x in st.events if x[0]!='env']
        b.prove(st,len(e)>0 and e[0][0]in('seed','array'),'the generator is seeded before anything is drawn')
        if ('env',) in st.events:
            seen.add('env'); b.prove(st,all(x[0]=='draw' for x in e[1:]) and e[0][0]=='seed','the state depends on RANDSEED alone')
            b.prove(st,bv(e[0][1],64)==z3.SignExt(32,b.seedint),'the generator gets the value of RANDSEED')
        else: seen.add('other')
    b.prove(st,seen=={'env','other'},'both ways to seed are covered')
# ---------------------------------------------------------------- random tensors (numbers drawn by the contracts above)
def draw(ex,st):
    o=st.w('rng'); n=o.cells[0][1]; o.cells[0]=(8,n+1); return Sel('rand',n)
def t_real(ex,st,a,name): return draw(ex,st)
def t_complex(ex,st,a,name): return Agg([draw(ex,st),draw(ex,st)])
PRIMS_RAND=[(r'double tensor::rand<double>\(\)',t_real),(r'std::complex<double> tensor::rand<std::complex<double> ?>\(\)',t_complex)]
def generator(c):
    o=Cells('rng',8,'ghost'); o.cells[0]=(8,c.int('drawn',0)); c.st.mem['rng']=o
    c.st.facts.axioms['rand']=lambda a:[GE(a,0),LT(a,1)]
def in_range(c,st,V,k):
    q=fresh('q'); f=st.facts.add(GE(q,0),LT(q,V.n))
    if not feasible(f): c.ex.log('element in [0,1) (no element)',True); return
    for comp in V.comps:
        v=read_content(c.ex,f,V.buf.content,q,comp); c.prove(st,And(GE(v,0),LT(v,1)),'element in [0,1)',f)
@spec('C24',k=['d','z'],n=[1,2,3,4,5,6])
def random_sizes(c,k,n):
    N=[c.int('n%d'%q,0) for q in range(n)]; o=c.out(); generator(c)
    for st,_ in c.run('random%d_%s'%(n,k),[o]+N): R=c.tview(st,o); R.shape(N); in_range(c,st,R.data,k)
@spec('C24',k=['d','z'])
def random_indices(c,k):
    D=c.vector('D','l',nonneg=True); c.assume(GE(D.n,1)); o=c.out(); generator(c)
    for st,_ in c.run('randomI_'+k,[o,D.ptr]):
        R=c.tview(st,o); R.rank_is(D.n); q=fresh('q'); R.dim(q,D.at(q),[GE(q,0),LT(q,D.n)]); R.data.len_is(Prod('D',ZERO,D.n)); in_range(c,st,R.data,k)
@spec('C24',k=['d','z'],mode=['own','shared'],r=[1,2,4,None])
def randomize(c,k,mode,r):
    A=c.tensor('A',k,r,mode=mode); generator(c)
    for st,_ in c.run('randomize_'+k,[A.ptr]):
        R=c.tview(st,A.ptr); R.like(A) if hasattr(R,'like') else None; R.data.len_is(A.n); in_range(c,st,R.data,k)
for f in(random_sizes,random_indices,randomize): f.prims=PRIMS_RAND
