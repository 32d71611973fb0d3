"""Contract layer: parameters, preconditions, postconditions, abort conditions."""
import re, time, traceback
from terms import *
import prover
from prover import Facts, prove, feasible
import symexec as X
from symexec import *
from refs import PRIMS, ref_at
import refs

REG=[]         # (property, name, fn, kwargs)
def spec(prop,name=None,tus=None,**variants):
    """registers a contract; list-valued variants multiply"""
    props=[prop] if isinstance(prop,str) else list(prop)
    def deco(f):
        combos=[{}]
        for k,vals in variants.items(): combos=[dict(c,**{k:v}) for c in combos for v in vals]
        for c in combos:
            nm=(name or f.__name__)+(' ['+', '.join('%s=%s'%(k,v if not isinstance(v,tuple) else v[0]) for k,v in c.items())+']' if c else '')
            for p in props: REG.append((p,nm,f,c,tus))
        return f
    return deco

CT={'d':'double','z':'std::complex<double> ','l':'long','b':'bool'}
KD={'d':'double','z':'cdouble','l':'long','b':'bool'}
def TT(k): return 'tensor::Tensor<%s>'%CT[k]
def VT(k): return 'tensor::Vector<%s>'%CT[k]
def RX(s): return re.escape(s)

def cdiv(x,y):
    """complex quotient over the reals"""
    if y[1]==ZERO: return [x[0]*Inv(y[0]),x[1]*Inv(y[0])]
    q=Inv(y[0]*y[0]+y[1]*y[1])
    return [(x[0]*y[0]+x[1]*y[1])*q,(x[1]*y[0]-x[0]*y[1])*q]
class Sym:
    """symbolic contents of a container parameter"""
    def __init__(s,name,k): s.name=name; s.k=k; s.sort='R' if k in'dz' else 'I'; s.comps=comps_of(KD[k])
    def at(s,i,c=0): return Sel(s.name,i,c,s.sort)
class STensor(Sym):
    def __init__(s,name,k,r): Sym.__init__(s,name,k); s.r=P(r); s.n=Prod(name+'.d',ZERO,s.r); s.dname=name+'.d'
    def d(s,i): return Sel(s.dname,i,0,'I')
    def P(s,lo,hi): return Prod(s.dname,lo,hi)
class SVector(Sym):
    def __init__(s,name,k,n): Sym.__init__(s,name,k); s.n=P(n)

NORM_AX='ax:norm'
def norm_ax(a):
    i,n=a.args[1],a.args[2]; v=a.poly
    return [Implies(And(GE(i,0),LT(i,n)),EQ(v,i)),Implies(And(LT(i,0),GE(i+n,0)),EQ(v,i+n))]
def Norm(i,n): return App('norm',P(i),P(n),sort='I')

class Ctx:
    def __init__(s,prog,name,prims=(),bodies=None):
        s.prog=prog; s.name=name; s.st=State(); s.outs=None
        pr=[(re.compile(p),f) for p,f in prims]+[x for x in PRIMS if not bodies or not x[0].pattern.startswith(bodies)]
        s.ex=Exec(prog,pr,fn=name); s.ghost=[]; s.nret=0; s.nabort=0; s.shared=[]; s.syms=[]
        s.st.facts.axioms[NORM_AX]=norm_ax
        s.timing=time.time()
    # ---------------------------------------------------------------- parameters
    def int(s,name,lo=None,hi=None):
        v=Var(name)
        if lo is not None: s.st.assume(GE(v,lo))
        if hi is not None: s.st.assume(LT(v,hi))
        return v
    def real(s,name): return Var(name,'R')
    def assume(s,*b): s.st.assume(*b)
    def _buf(s,id,kind,n,sym,mode):
        b=Buf(id,ESZ[kind],kind,n,init_content(sym,sort_of(kind)),1,ro=(mode=='in'))
        if mode=='shared': b.owners=2; s.shared.append((id,b.content))
        s.st.mem[id]=b; return AbsRef(id)
    def tensor(s,name,k='d',r=None,mode='in'):
        if r is None: r=s.int(name+'.r',1)
        if not P(r).is_const(): s.assume(LT(P(r),1<<31))       # rank() is an int
        t=STensor(name,k,r)
        c=Cells(name,16,'param'); dn=name+'.d'
        c.abs[0]=s._buf(name+'.data',KD[k],t.n,name,mode); c.abs[8]=s._buf(name+'.dims','long',t.r,dn,mode)
        s.st.mem[name]=c; ax=s.st.facts.axioms
        ax['nonneg:'+dn]=True; ax[dn]=lambda a:[GE(a.poly,0)]
        if not t.r.is_const(): pass
        t.ptr=Ptr(name,0); s.syms.append(t); return t
    def like(s,name,A,k='d',mode='in'):
        """a tensor with the dimensions of A (own storage for its dimensions)"""
        t=STensor(name,k,A.r); t.dname=A.dname; t.n=A.n
        c=Cells(name,16,'param')
        c.abs[0]=s._buf(name+'.data',KD[k],t.n,name,mode); c.abs[8]=s._buf(name+'.dims','long',t.r,A.dname,mode)
        s.st.mem[name]=c; t.ptr=Ptr(name,0); s.syms.append(t); return t
    def vector(s,name,k='d',n=None,mode='in',nonneg=False,axiom=None):
        if n is None: n=s.int(name+'.n',0)
        v=SVector(name,k,n)
        c=Cells(name,8,'param'); c.abs[0]=s._buf(name+'.data',KD[k],v.n,name,mode); s.st.mem[name]=c
        if nonneg: s.st.facts.axioms['nonneg:'+name]=True; s.st.facts.axioms[name]=lambda a:[GE(a.poly,0)]
        elif k=='b': s.st.facts.axioms[name]=lambda a:[GE(a.poly,0),LE(a.poly,1)]
        elif axiom: s.st.facts.axioms[name]=axiom
        v.ptr=Ptr(name,0); s.syms.append(v); return v
    def out(s,name='out',size=16):
        s.st.mem[name]=Cells(name,size,'sret'); return Ptr(name,0)
    def zref(s,name,kind='z'):
        """reference to a scalar"""
        c=Cells(name,16,'param')
        for o in comps_of(KD[kind]): c.cells[o]=(8,Var('%s.%d'%(name,o),'R' if kind in 'dz' else 'I'))
        s.st.mem[name]=c; return Ptr(name,0)
    def cell(s,name,val):
        c=Cells(name,16,'param')
        for o,v in (val.items() if isinstance(val,dict) else [(0,val)]): c.cells[o]=(8,v)
        s.st.mem[name]=c; return Ptr(name,0)
    # ---------------------------------------------------------------- running
    def find(s,pat,one=True):
        ns=s.prog.find(pat)
        if not ns: 
            s.prog.load_all(); ns=s.prog.find(pat)
        if not ns: raise Unsupported('function under contract not found: '+pat)
        if one:
            ns=sorted(ns,key=lambda n:('C1' in n or 'D1' in n,n))
        return ns[0]
    def run(s,pat,args,expect='return'):
        """executes; expect='return': no feasible abort; 'abort': no feasible return; 'any'"""
        if not feasible(s.st.facts): raise Failed('precondition is satisfiable',s.name)
        fn=s.find(pat)
        outs=s.ex.call(s.st.copy(),fn,args)
        res=[]
        for st,kind,v in outs:
            if kind=='abort':
                if expect=='return':
                    if prove_deep(st.facts,FALSE): s.ex.log('abort path is unreachable',True); continue
                    s.ex.log('does not abort',False); raise Failed('does not abort','reached %s under %s'%(v,'; '.join(show_bool(b) for b in st.facts.l[-14:])[:1500]))
                s.nabort+=1; s.ex.log('aborts as required',True)
            else:
                if expect=='abort':
                    if prove_deep(st.facts,FALSE): s.ex.log('return path is unreachable',True); continue
                    s.ex.log('aborts',False); raise Failed('aborts on inadmissible arguments','returns under %s'%('; '.join(show_bool(b) for b in st.facts.l[-14:])[:1500]))
                if not feasible(st.facts): continue
                s.nret+=1; res.append((st,v))
                for id,c in s.shared:
                    b=st.mem[id]
                    ok=b.content is c and not b.freed
                    s.ex.log('storage shared with other owners unchanged',ok)
                    if not ok: raise Failed('storage shared with other owners unchanged',id)
        if expect=='abort' and not s.nabort: raise Failed('vacuous: no abort outcome reached')
        if expect=='return' and not res: raise Failed('vacuous: no return outcome reached')
        return res
    # ---------------------------------------------------------------- postconditions
    def prove(s,st,goal,name,facts=None):
        f=facts or st.facts
        if goal is TRUE or prove(f,goal) or prove_deep(f,goal): s.ex.log(name,True); return
        s.ex.log(name,False); raise Failed(name,'%s  under  %s [%s]'%(show_bool(goal)[:800],'; '.join(show_bool(b) for b in f.l[-14:])[:1500],prover.LAST['reason']))
    def prove_eq(s,st,a,b,name):
        """equality of values, deciding conditionals from the path"""
        if rewrite_eq(st.facts,P(a),P(b)): s.ex.log(name,True); return
        s.prove(st,EQ(a,b),name)
    def tview(s,st,p): return TView(s,st,p)
    def vview(s,st,p): return VView(s,st,p)
class VView:
    """a vector in the final state"""
    def __init__(s,c,st,p):
        s.c=c; s.st=st; r=st.mem[p.obj].abs.get(p.off.const())
        if r is None: raise Failed('result is initialised',str(p))
        s.ref=r; s.buf=st.mem[r.buf]
        if s.buf.freed: raise Failed('result storage is alive')
        s.n=s.buf.n; s.comps=comps_of(s.buf.kind)
    def len_is(s,n,name='length'): s.c.prove(s.st,EQ(s.n,n),name)
    def fresh(s):
        """shares nothing with another owner"""
        ok=s.buf.owners==1; s.c.ex.log('result owns its storage',ok)
    def elems(s,vs,idx,exp,name='elements',extra=(),raw=False,when=None):
        """for all vs: content[idx(vs)] == exp(vs,comp).  vs: list of bounds (may depend on earlier variables)"""
        vars=[]; f=s.st.facts.add(*extra)
        for b in vs:
            lo=ZERO
            if callable(b): b=b(*vars)
            if isinstance(b,tuple): lo,b=b
            v=fresh('e'); vars.append(v); f=f.add(GE(v,lo),LT(v,b))
        if when is not None: f=f.add(when(*vars))
        s._elems(f,vars,P(idx(*vars)),exp,name,0)
    def _elems(s,f,vars,i,exp,name,depth):
        i=resolve_ites(f,i)
        if depth<4:
            for x in all_atoms(i):
                if x.kind=='ite' and not any(str(v.args[0]).startswith('@') for v in x.fv if v.kind=='var'):
                    for b in(x.args[0],Not(x.args[0])): s._elems(f.add(b),vars,i,exp,name,depth+1)
                    return
        if not feasible(f): s.c.ex.log(name+' (no element on this path)',True); return
        s.c.prove(s.st,And(GE(i,0),LT(i,s.n)),name+': position inside the result',f)
        e0=[exp(c,*vars) for c in s.comps]
        e0=[resolve_ites(f,e) if isinstance(e,Poly) else e for e in e0]
        cont0=s.buf.content
        im=ite_map(f,[e.idx for e in cont0.chain()]+[n for e in cont0.chain() for _,n in e.vs]) if cont0.parent is not None else {}
        if im: cont0=sub_content(cont0,im)
        mp,f2=simplify_facts(f,[i]+[e for e in e0 if isinstance(e,Poly)],cont0)
        cont=sub_content(cont0,mp); ii=subst(i,mp)
        for c,e in zip(s.comps,e0):
            if isinstance(e,Bool): e=Ite(e,1,0)
            e=subst(P(e),mp)
            got=unlazy(s.c.ex,f2,resolve_ites(f2,read_content(s.c.ex,f2,cont,ii,c)),lambda q: sub_content(sub_content(q,im),mp))
            g=EQ(got,e)
            if g is TRUE or prove(f2,g) or prove_deep(f2,g) or rewrite_eq(f2,got,e): s.c.ex.log(name,True)
            else:
                s.c.ex.log(name,False)
                raise Failed(name,'at %s: found %s, contract says %s  under %s'%(show(ii)[:300],show(got)[:700],show(e)[:500],'; '.join(show_bool(b) for b in f2.l[-14:])[:1200]))
class TView:
    """a tensor in the final state"""
    def __init__(s,c,st,p):
        s.c=c; s.st=st
        s.data=VView(c,st,p); s.dims=VView(c,st,Ptr(p.obj,p.off+8))
    def shape(s,dims,name='shape'):
        """dims: list of dimensions (fixed rank)"""
        s.dims.len_is(len(dims),name+': rank')
        for i,d in enumerate(dims):
            v=read_content(s.c.ex,s.st.facts,s.dims.buf.content,P(i),0); s.c.prove(s.st,EQ(v,d),name+': dimension %d'%i)
        n=ONE
        for d in dims: n=n*P(d)
        s.data.len_is(n,name+': number of elements')
    def rank_is(s,r): s.dims.len_is(r,'shape: rank')
    def dim(s,i,v,extra=(),name='shape: dimension'):
        f=s.st.facts.add(*extra)
        if not feasible(f): return
        got=read_content(s.c.ex,f,s.dims.buf.content,P(i),0); s.c.prove(s.st,EQ(got,v),name,f)
    def elems(s,*a,**k): s.data.elems(*a,**k)

def simplify_facts(f,polys,content=None):
    """equations implied by the path: unit dimensions, split products; returns (mapping, facts)"""
    mp={}; f2=f
    for _ in range(3):
        ps=[subst(p,mp) for p in polys]
        if content is not None:
            for e in content.chain():
                ps.append(subst(e.idx,mp))
                if isinstance(e.val,Poly): ps.append(subst(e.val,mp))
        m=cut_split(f2,ps+[b for b in f2.l if b.k!='forall'])
        ps=[subst(p,m) for p in ps] if m else ps
        f3=f2.add(*[subst(b,m) for b in f2.l if b.k!='forall']) if m else f2
        u=unit_facts(f3,ps) if small_domain(f3,ps) else {}
        if not m and not u: break
        step=dict(m)
        for a in u: step[a]=u[a]
        for a in m: step[a]=subst(m[a],u)
        mp={a:subst(p,step) for a,p in mp.items()}
        for a,p in step.items():
            if a not in mp: mp[a]=p
        f2=f3.add(*[subst(b,u) for b in f3.l if b.k!='forall'])
        if not u: break
    e=eq_facts(f2)
    if e:
        mp2={a:subst(p,e) for a,p in mp.items()}
        for a,p in e.items():
            if a not in mp2: mp2[a]=p
        mp=mp2; f2=f2.add(*[subst(b,e) for b in f2.l if b.k!='forall'])
    return mp,f2
def small_domain(f,ps):
    return any(b.k in('==','<=') and not (b.a[0].real) for b in f.l)
def sub_content(c,mp):
    if not mp or c.parent is None: return c
    chain=c.chain(); r=c.root()
    for e in chain:
        e=e.sub(mp); one={v:ZERO for v,n in e.vs if n==ONE}
        if one:
            e=Eff(e.kind,[t for t in e.vs if t[0] not in one],subst(e.guard,one),subst(e.idx,one),e.comp,subst(e.val,one) if isinstance(e.val,(Poly,Bool)) else e.val)
        r=Content(r,e)
    return r
def ite_map(f,ps):
    mp={}
    for p in ps:
        for x in all_atoms(p):
            if x in mp or x.kind!='ite' or any(str(v.args[0]).startswith('@') for v in x.fv if v.kind=='var'): continue
            if prove(f,x.args[0]): mp[x]=P(x.args[1])
            elif prove(f,Not(x.args[0])): mp[x]=P(x.args[2])
            elif prove(f,EQ(x.args[1],x.args[2])): mp[x]=P(x.args[1])
    return mp
def resolve_ites(f,p):
    """decides conditionals from the facts, also those inside sums"""
    for _ in range(4):
        mp=ite_map(f,[p])
        if not mp: return p
        p=subst(p,mp)
    return p
def rewrite_eq(f,a,b):
    for _ in range(4):
        mp=ite_map(f,[a,b])
        if not mp: break
        a=subst(a,mp); b=subst(b,mp)
        if a==b or prove(f,EQ(a,b)) or prove_deep(f,EQ(a,b)): return True
    pins={}
    for x in list(all_atoms(a))+list(all_atoms(b))+[y for g in f.l if g.k!="forall" for y in all_atoms(g)]:
        if x.kind=='app' and x not in pins and x.args[0]=='norm' and prove(f,EQ(x.poly,0)): pins[x]=ZERO
    if pins: a=subst(a,pins); b=subst(b,pins); f=f.add(*[subst(g,pins) for g in f.l if g.k!='forall'])
    q=eq_facts(f); a=subst(a,q); b=subst(b,q)
    if a==b or pins and (prove(f,EQ(a,b)) or prove_deep(f,EQ(a,b))): return True
    return False

# ---------------------------------------------------------------- contracts of small functions used at call sites
def c_normalize(ex,st,a,name):
    i,n=a
    ok=And(GE(i,-n),LT(i,n))
    outs=[]
    s1=st
    if not prove(st.facts,ok):
        bad=st.copy(); bad.assume(Not(ok)); bad.br=st.br+(Not(ok),)
        if not prove(st.facts,Not(ok)):
            s1=st.copy(); s1.assume(ok); s1.br=st.br+(ok,)
        else: s1=None
        if feasible(bad.facts): outs.append((bad,'abort','assertion'))
    if s1 is not None:
        if prove(s1.facts,GE(i,0)): v=i
        elif prove(s1.facts,LT(i,0)): v=i+n
        else: 
            v=Norm(i,n); s1.assume(GE(v,0),LT(v,n)) if s1 is not st else None
            if s1 is st: s1=st.copy(); s1.assume(GE(v,0),LT(v,n))
        outs.append((s1,'ret',v))
    return outs
NORM=(r'tensor::normalize_index\(long, long\)',c_normalize)

def norm_contract(prop):
    """the call-site contract of normalize_index, proved on the real function"""
    @spec(prop,'normalize_index_contract',case=['pos','neg','bad'])
    def f(c,case):
        i=c.int('i'); n=c.int('n'); F=r'.*tensor::normalize_index\(long, long\)'
        if case=='bad': c.assume(Or(GE(i,n),LT(i,-n))); c.run(F,[i,n],expect='abort'); return
        c.assume(*([GE(i,0),LT(i,n)] if case=='pos' else [LT(i,0),GE(i,-n)]))
        for st,v in c.run(F,[i,n]): c.prove(st,EQ(v,i if case=='pos' else i+n),'normalised index')
def fold_facts(f,p,cands):
    """facts about the accumulations in p: the candidate invariants inv(acc,k) that are inductive (Houdini)"""
    out=f
    for a in sorted((a for a in all_atoms(p) if a.kind=='fold' and not any(str(v.args[0]).startswith('@') for v in a.fv if v.kind=='var')),key=lambda a:a.lvl):
        (init,n),body,(nm,an)=a.args
        va=[v for v in body.fv if v.kind=='var' and v.args[0]==an]; acc=va[0].poly if va else fresh('acc','R'); k=fresh('k')
        vk=[v for v in body.fv if v.kind=='var' and v.args[0]==nm]
        acc2=fresh('acc','R' if (va and va[0].sort=='R') else 'I'); mp={}
        if va: mp[va[0]]=acc2
        if vk: mp[vk[0]]=k
        nx=subst(body,mp)
        if not prove(out,GE(n,0)): continue
        live=[i for i in cands if prove(out,i(init,ZERO)) or prove_deep(out,i(init,ZERO))]
        while live:
            g=out.add(GE(k,0),LT(k,n),*[i(acc2,k) for i in live])
            keep=[i for i in live if prove(g,i(nx,k+1)) or prove_deep(g,i(nx,k+1))]
            if len(keep)==len(live): break
            live=keep
        out=out.add(*[i(a.poly,n) for i in live])
    return out
