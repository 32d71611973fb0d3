"""Discharges obligations: ring normalisation, shift-positivity, then z3 (and cvc5 as second opinion)."""
import time, z3
from fractions import Fraction
from terms import *

class Stats:
    def __init__(s): s.n={}; s.t=0.0; s.queries=0
    def hit(s,k): s.n[k]=s.n.get(k,0)+1
STATS=Stats()
DEFAULT_TO=3000

class Z3Ctx:
    def __init__(s): s.memo={}; s.fun={}; s.side={}; s.keep=[]
    def num(s,c,real):
        if isinstance(c,Fraction): return z3.RealVal('%d/%d'%(c.numerator,c.denominator))
        return z3.RealVal(c) if real else z3.IntVal(c)
    def poly(s,p,real=None):
        if real is None: real=p.real
        key=(p,real)
        r=s.memo.get(key)
        if r is not None: return r
        ts=[]
        for m,c in p.t.items():
            fs=[]
            for a,e in m:
                x=s.atom(a)
                if real and x.sort()==z3.IntSort(): x=z3.ToReal(x)
                fs+=[x]*e
            if c!=1 or not fs: fs.insert(0,s.num(c,real))
            t=fs[0]
            for f in fs[1:]: t=t*f
            ts.append(t)
        r=s.num(0,real) if not ts else ts[0] if len(ts)==1 else z3.Sum(ts)
        s.memo[key]=r
        return r
    def func(s,name,doms,rng):
        k=(name,tuple(map(str,doms)),str(rng))
        if k not in s.fun: s.fun[k]=z3.Function('%s/%d'%(name,len(s.fun)),*(list(doms)+[rng]))
        return s.fun[k]
    def atom(s,a):
        r=s.memo.get(a)
        if r is not None: return r
        so=z3.RealSort() if a.sort=='R' else z3.IntSort()
        k=a.kind
        if k=='var': r=z3.Const('%s#%d'%(a.args[0],a.id),so)
        elif k=='sel': r=s.func('sel_%s_%s'%(a.args[0],a.args[2]),[z3.IntSort()],so)(s.poly(a.args[1],False))
        elif k=='ite':
            real=a.sort=='R'
            r=z3.If(s.bool(a.args[0]),s.poly(a.args[1],real),s.poly(a.args[2],real))
        elif k=='div':
            x=s.poly(a.args[0],False); y=s.poly(a.args[1],False)
            q=z3.Const('div#%d'%a.id,z3.IntSort()); m=z3.Const('mod#%d'%a.id,z3.IntSort())
            s.side[a]=[z3.Implies(y!=0,z3.And(x==q*y+m, z3.If(y>0,z3.And(m<y,m>-y),z3.And(m<-y,m>y)), z3.Implies(x>=0,m>=0), z3.Implies(x<=0,m<=0))),
              z3.Implies(z3.And(x>=0,y>0),z3.And(q>=0,q<=x))]
            r=q
        elif k=='app':
            args=[]
            for y in a.args[1:]:
                if isinstance(y,Poly): args.append(s.poly(y))
                elif isinstance(y,Bool): args.append(s.bool(y))
            if not args: r=z3.Const('app_%s'%a.args[0],so)
            else: r=s.func('app_'+a.args[0]+'_'+'_'.join(str(y) for y in a.args[1:] if not isinstance(y,(Poly,Bool))),[x.sort() for x in args],so)(*args)
        elif k=='prod':
            r=s.func('prod_'+a.args[0],[z3.IntSort(),z3.IntSort()],so)(s.poly(a.args[1],False),s.poly(a.args[2],False))
        elif k=='inv':
            x=s.poly(a.args[0],True); r=z3.Const('inv#%d'%a.id,so)
            s.side[a]=[z3.Implies(x!=0,x*r==1)]
        else: r=z3.Const('%s#%d'%(k,a.id),so)
        s.memo[a]=r
        return r
    def bool(s,b):
        r=s.memo.get(b)
        if r is not None: return r
        k=b.k
        if k=='true': r=z3.BoolVal(True)
        elif k=='false': r=z3.BoolVal(False)
        elif k in('<=','<','=='):
            p=b.a[0]
            # put negative terms on the other side: friendlier to the arithmetic solver
            x=s.poly(p); z=s.num(0,p.real)
            r=(x<=z) if k=='<=' else (x<z) if k=='<' else (x==z)
        elif k=='not': r=z3.Not(s.bool(b.a[0]))
        elif k=='and': r=z3.And(*[s.bool(x) for x in b.a])
        elif k=='or': r=z3.Or(*[s.bool(x) for x in b.a])
        elif k=='bapp':
            args=[s.poly(x) if isinstance(x,Poly) else s.bool(x) for x in b.a[1:] if isinstance(x,(Poly,Bool))]
            nm='b_'+b.a[0]+'_'+'_'.join(str(y) for y in b.a[1:] if not isinstance(y,(Poly,Bool)))
            r=s.func(nm,[x.sort() for x in args],z3.BoolSort())(*args) if args else z3.Bool(nm)
        elif k=='forall': r=z3.BoolVal(True)      # instantiated by hand
        else: raise TypeError(k)
        s.memo[b]=r
        return r

def instantiate(fa,grounds):
    """instances of a Forall fact triggered by Sel atoms (one variable)"""
    vs,body=fa.a
    if len(vs)!=1: return []
    v=vs[0]; out=set()
    pats=[a for a in all_atoms(body) if a.kind=='sel' and v in a.fv]
    for p in pats:
        cs=p.args[1].coeff_split(v)
        if cs is None or set(cs)-{0,1} or not cs[1].is_const(): continue
        c1=cs[1].const(); c0=cs.get(0,ZERO)
        if abs(c1)!=1:
            # strided pattern (a loop unrolled c1 times): the block that holds the ground index
            if c1>1 and not c0.t:
                for g in grounds:
                    if g.kind=='sel' and g.args[0]==p.args[0] and g.args[2]==p.args[2] and not any(x.args[0].startswith('@') for x in g.fv):
                        out.add(Div(g.args[1],P(c1)))
            continue
        for g in grounds:
            if g.kind=='sel' and g.args[0]==p.args[0] and g.args[2]==p.args[2]:
                t=(g.args[1]-c0)*c1
                if any(x.args[0].startswith('@') for x in t.fv): continue
                out.add(t)
    r=[]
    for t in out:
        k=(fa,t); i=_inst.get(k)
        if i is None:
            if len(_inst)>200000: _inst.clear()
            i=_inst[k]=subst(body,{v:t})
        r.append(i)
    return r
_inst={}

class Facts:
    """immutable-ish list of assumptions, with per-symbol range axioms"""
    __slots__=('l','_cache','axioms')
    def __init__(s,l=(),axioms=None): s.l=tuple(l); s._cache={}; s.axioms=axioms if axioms is not None else {}
    def add(s,*bs):
        n=[b for b in bs if b is not TRUE and b not in s.l]
        flat=[]
        for b in n: flat+= list(b.a) if b.k=='and' else [b]
        return Facts(s.l+tuple(flat),s.axioms) if flat else s

def base_axioms(ctxatoms,axioms):
    """axioms: dict symbol -> function(atom)->list of Bool ; plus nonnegativity of dimension products"""
    memo=axioms.setdefault('_memo',{})
    out=[]
    for a in ctxatoms:
        r=memo.get(a)
        if r is None: r=memo[a]=atom_axioms(a,axioms)
        out+=r
    return out
def atom_axioms(a,axioms):
    out=[]
    if any(v.args[0].startswith('@') for v in a.fv): return out
    if a.kind=='sel':
        f=axioms.get(a.args[0])
        if f: out+=f(a)
    elif a.kind=='prod':
        if axioms.get('prod:'+a.args[0],True):
            out.append(GE(a.poly,0))
            b=a.args[0]; lo,hi=a.args[1],a.args[2]
            out.append(Implies(LE(hi,lo),EQ(a.poly,1)))
            out.append(Implies(EQ(hi,lo+1),EQ(a.poly,Sel(b,lo,0,'I'))))
    elif a.kind=='app' and ('ax:'+a.args[0]) in axioms:
        out+=axioms['ax:'+a.args[0]](a)
    return out

def nonneg_atom(a,facts): return None

_cache={}
def prove(facts,goal,timeout=None,tag=None,want_model=False):
    """True iff facts |= goal could be established"""
    if goal is TRUE: return True
    if goal.k=='and': return all(prove(facts,g,timeout) for g in goal.a)
    if goal in facts.l: STATS.hit('hypothesis'); return True
    key=(facts.l,goal)
    if key in _cache: return _cache[key]
    t0=time.time()
    try:
        r=_prove(facts,goal,timeout)
    finally:
        STATS.t+=time.time()-t0
    _cache[key]=r
    return r
def linear_ok(goal): return True

def var_bounds(facts):
    """facts of the form v - N + 1 <= 0 and -v <= 0"""
    lo=set(); up={}
    for f in facts.l:
        if f.k=='<=':
            p=f.a[0]
            for m,c in p.t.items():
                if len(m)==1 and m[0][1]==1 and m[0][0].kind in('var','sel','prod','app','sum'):
                    a=m[0][0]
                    if c==-1 and len(p.t)==1: lo.add(a)
                    if c==1 and a.kind=='var': up.setdefault(a,[]).append(a.poly-p)   # a <= a-p
    return lo,up

def shift_positive(facts,q,lo,up,nonneg):
    """is q>=0 by writing every bounded variable v<=U, with U = atom + const, as  atom = v+u-const, u>=0"""
    # eliminate bounds whose right side contains exactly one fresh atom linearly
    for _ in range(8):
        if all(c>=0 and all((a in nonneg) or e%2==0 for a,e in m) for m,c in q.t.items()): return True
        done=False
        for m,c in list(q.t.items()):
            if c<0:
                for v,_e in m:
                    if v.kind!='var' or v not in up: continue
                    for U in up[v]:
                        # U = N + const  -> N = v + u - const
                        nc=[(mm,cc) for mm,cc in U.t.items() if mm]
                        if len(nc)==1 and nc[0][1]==1 and len(nc[0][0])==1 and nc[0][0][0][1]==1:
                            N=nc[0][0][0][0]
                            if N is v or N in v.fv: continue
                            if not any(N in [a for a,_ in mm] for mm in q.t): continue
                            u=fresh('u'); nonneg=nonneg|{the_atom(u)}
                            k=U-N.poly
                            q2=subst(q,{N:v.poly+u-k})
                            if N in q2.fv or any(N is a for a in q2.atoms()): continue
                            q=q2; done=True; break
                    if done: break
            if done: break
        if not done: return False
    return False

def _prove(facts,goal,timeout):
    # 1. algebraic positivity for  p<=0
    if goal.k=='<=' and not goal.a[0].real:
        lo,up=var_bounds(facts)
        nn=set(lo)
        for a in goal.a[0].atoms():
            if a.kind=='prod': nn.add(a)
            if a.kind=='sel' and facts.axioms.get('nonneg:'+str(a.args[0])): nn.add(a)
        for l in list(up.values()):
            for U in l:
                for a in U.atoms():
                    if a.kind=='prod' or (a.kind=='sel' and facts.axioms.get('nonneg:'+str(a.args[0]))): nn.add(a)
        try:
            if shift_positive(facts,-goal.a[0],lo,up,frozenset(nn)):
                STATS.hit('positivity'); return True
        except TooBig: pass
    r=z3_check(facts,Not(goal),timeout)
    if r=='unsat': STATS.hit('z3'); return True
    return False

_sb={}
def sum_body(a,axioms):
    """body of a one-variable integer sum as a function, and whether it is >=0 / <=1 everywhere"""
    (n,),body,(nm,)=a.args
    v=atom('var',(nm,),'I')
    f=lambda t: subst(body,{v:P(t)})
    r=_sb.get((body,nm))
    if r is None:
        q=fresh('sb'); b=f(q); fa=Facts((),{k:x for k,x in axioms.items() if k!='_memo'})
        r=_sb[(body,nm)]=(_prove(fa,GE(b,0),None),_prove(fa,LE(b,1),None))
    return f,r[0],r[1],n
def sum_axioms(gr,axioms):
    """prefix sums over one variable: monotonicity, unit steps, witnesses"""
    out=[]; groups={}
    for a in gr:
        if a.kind=='sum' and a.sort=='I' and len(a.args[0])==1 and not any(v.args[0].startswith('@') for v in a.fv): groups.setdefault((a.args[1],a.args[2]),[]).append(a)
    for (body,nm),l in groups.items():
        f,ge,le,_=sum_body(l[0],axioms)
        if not ge: continue
        v=atom('var',(nm[0],),'I')
        pts=set()
        pats=[p for p in all_atoms(body) if p.kind=='sel' and v in p.fv]
        for p in pats:
            cs=p.args[1].coeff_split(v)
            if cs is None or set(cs)-{0,1} or not cs[1].is_const() or abs(cs[1].const())!=1: continue
            for g in gr:
                if g.kind=='sel' and g.args[0]==p.args[0] and g.args[2]==p.args[2] and not any(x.args[0].startswith('@') for x in g.fv): pts.add((g.args[1]-cs.get(0,ZERO))*cs[1].const())
        for a in l:
            n=a.args[0][0]; S=a.poly
            out+=[GE(S,0),Implies(LE(n,0),EQ(S,0))]
            if le: out.append(Implies(GE(n,0),LE(S,n)))
            w=App('wpos',S,sort='I'); out.append(Implies(GT(S,0),And(GE(w,0),LT(w,n),GE(f(w),1))))
            if le:
                w=App('wneg',S,sort='I'); out.append(Implies(And(LT(S,n),GE(n,0)),And(GE(w,0),LT(w,n),LE(f(w),0))))
            for t in pts:
                i=And(GE(t,0),LT(t,n)); out.append(Implies(i,GE(S,f(t))))
                if le: out.append(Implies(i,LE(S,n-1+f(t))))
            for b in l:
                if b is a: continue
                m=b.args[0][0]; T=b.poly
                out.append(Implies(LE(n,m),LE(S,T)))
                if le: out.append(Implies(And(LE(n,m),GE(n,0)),LE(T-S,m-n)))
                out.append(Implies(And(LT(n,m),GE(n,0)),GE(T,S+f(n))))
                if le: out.append(Implies(And(LT(n,m),GE(n,0)),LE(T-S,m-n-1+f(n))))
                out.append(Implies(And(EQ(n,m)),EQ(S,T)))
                out.append(Implies(And(EQ(n+1,m),GE(n,0)),EQ(T,S+f(n))))
    return out
def fold_axioms(gr):
    """index accumulators (acc := acc or j+c): the value is the initial one or one of the assigned ones"""
    out=[]
    for a in gr:
        if a.kind!='fold' or a.sort!='I' or any(v.args[0].startswith('@') for v in a.fv): continue
        (init,n),body,(nm,an)=a.args; ok=True; cs=set()
        jv=atom('var',(nm,),'I'); av=[v for v in body.fv if v.kind=='var' and v.args[0]==an]
        def leaves(p):
            x=the_atom(p)
            if x is not None and x.kind=='ite': return leaves(x.args[1])+leaves(x.args[2])
            return [p]
        for l in leaves(body):
            if av and l==av[0].poly: continue
            d=l-jv.poly
            if d.is_const(): cs.add(d.const())
            else: ok=False
        if not ok: continue
        f=a.poly; out.append(Implies(LE(n,0),EQ(f,init)))
        if cs: out.append(Or(EQ(f,init),And(GE(f,min(cs)),LE(f,n-1+max(cs)),GE(n,1))))
        else: out.append(EQ(f,init))
    return out
def closure(facts,goal):
    gr=set()
    for f in facts.l:
        if f.k!='forall': all_atoms(f,gr)
    if goal is not None: all_atoms(goal,gr)
    extra=[]
    done=set()
    for _ in range(2):
        new=[]
        for f in facts.l:
            if f.k=='forall':
                for i in instantiate(f,gr):
                    if i not in done: done.add(i); new.append(i)
            elif f.k=='or':
                pass
        ax=[b for b in base_axioms(gr,facts.axioms)+(sum_axioms(gr,facts.axioms) if any(a.kind=='sum' and a.sort=='I' for a in gr) else [])+(fold_axioms(gr) if any(a.kind=='fold' for a in gr) else []) if b not in done]
        for b in ax: done.add(b)
        new+=ax
        if not new: break
        extra+=new
        for b in new: all_atoms(b,gr)
    return extra
CTX=Z3Ctx(); RL=2500; WALL=60000
LAST={'reason':None,'model':None}
_models={}
def z3_check(facts,neg,timeout=None):
    STATS.queries+=1
    ctx=CTX
    ms=_models.get(facts.l)
    if ms:
        na=all_atoms(neg)
        for m,ats in ms:
            if na<=ats:
                v=m.eval(ctx.bool(neg),True)
                if z3.is_true(v):
                    STATS.hit('model'); LAST['reason']='refuted'; LAST['model']=m; return 'sat'
    s=z3.Solver()
    s.set('timeout',WALL); s.set('rlimit',(timeout or DEFAULT_TO)*RL); s.set('random_seed',1)
    ex=closure(facts,neg); cs=[f for f in facts.l if f.k!='forall']+ex+[neg]
    ats=set()
    for c in cs: ats|=all_atoms(c)
    zs=[ctx.bool(c) for c in cs]
    if ctx.side:
        for a in sorted(ats):
            if a in ctx.side: zs+=ctx.side[a]
    for z in zs: z3.Z3_solver_assert(s.ctx.ref(),s.solver,z.as_ast())
    r=s.check()
    if r==z3.sat:
        m=s.model(); LAST['model']=m
        l=_models.setdefault(facts.l,[]); l.insert(0,(m,frozenset(ats))); del l[4:]
        LAST['reason']='refuted'
    elif r==z3.unknown:
        LAST['reason']='undecided: '+s.reason_unknown(); LAST['model']=None
        if s.reason_unknown()=='timeout': STATS.hit('wall-timeout')
        STATS.hit('unknown')
    return str(r)
def model_text():
    m=LAST['model']
    return {str(d):str(m[d])[:200] for d in m.decls()[:40]} if m is not None else None
def feasible(facts,timeout=1500):
    """False only when the facts are contradictory"""
    key=(facts.l,'feas')
    if key in _cache: return _cache[key]
    t0=time.time()
    r=z3_check(facts,TRUE,timeout)!='unsat'
    STATS.t+=time.time()-t0
    _cache[key]=r
    return r
