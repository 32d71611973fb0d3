"""Terms of the specification logic: polynomials over hash-consed atoms, and boolean formulas.

Integers are mathematical integers, floating point values are exact reals (both are
stated assumptions of the checks).
"""
from fractions import Fraction
import itertools

class Atom:
    __slots__=('id','kind','args','sort','fv','lvl','poly')
    def __repr__(s): return show_atom(s)
    def __lt__(s,o): return s.id<o.id
_atoms={}
_next=[0]
def atom(kind,args,sort):
    k=(kind,args,sort)
    a=_atoms.get(k)
    if a is None:
        a=Atom(); a.id=_next[0]; _next[0]+=1; a.kind=kind; a.args=args; a.sort=sort
        fv=set(); lvl=-1
        if kind=='var':
            fv.add(a)
            if args[0].startswith('@'): lvl=int(args[0][1:].split('.')[0])
        else:
            for x in _flat(args):
                if isinstance(x,(Poly,Bool)): fv|=x.fv; lvl=max(lvl,x.lvl)
        if kind in('sum','fold','pfold'):
            own=[v for v in fv if v.args[0].startswith('@') and v.args[0] in a.args[-1]]
            fv-=set(own)
        a.fv=frozenset(fv); a.lvl=lvl
        a.poly=None
        _atoms[k]=a
        a.poly=Poly({((a,1),):1})
    return a
def _flat(x):
    for y in x:
        if isinstance(y,tuple): yield from _flat(y)
        else: yield y

class Poly:
    __slots__=('t','_h','fv','lvl','_real','_key')
    def __init__(s,t):
        s.t=t; s._h=None; s._key=None
        fv=frozenset(); lvl=-1; real=False
        for m,c in t.items():
            if isinstance(c,Fraction):
                if c.denominator==1: t[m]=int(c)
                else: real=True
            for a,e in m:
                if not a.fv<=fv: fv=fv|a.fv
                if a.lvl>lvl: lvl=a.lvl
                if a.sort=='R': real=True
        s.fv=fv; s.lvl=lvl; s._real=real
    def key(s):
        if s._key is None: s._key=frozenset(s.t.items())
        return s._key
    def __hash__(s):
        if s._h is None: s._h=hash(s.key())
        return s._h
    def __eq__(s,o): return s is o or (isinstance(o,Poly) and s.t==o.t)
    def __ne__(s,o): return not s==o
    @property
    def real(s): return s._real
    def is_const(s): return not s.t or (len(s.t)==1 and () in s.t)
    def const(s): return s.t.get((),0) if s.is_const() else None
    def __add__(a,b):
        b=P(b)
        if not b.t: return a
        if not a.t: return b
        t=dict(a.t)
        for m,c in b.t.items():
            n=t.get(m,0)+c
            if n: t[m]=n
            else: t.pop(m,None)
        return Poly(t)
    __radd__=__add__
    def __neg__(a): return Poly({m:-c for m,c in a.t.items()})
    def __sub__(a,b): return a+(-P(b))
    def __rsub__(a,b): return P(b)-a
    def __mul__(a,b):
        b=P(b)
        if len(a.t)*len(b.t)>20000: raise TooBig('polynomial product')
        t={}
        for m,c in a.t.items():
            for n,d in b.t.items():
                k=mmul(m,n); v=t.get(k,0)+c*d
                if v: t[k]=v
                else: t.pop(k,None)
        return Poly(t)
    __rmul__=__mul__
    def __pow__(a,n):
        r=P(1)
        for _ in range(n): r=r*a
        return r
    def __repr__(s): return show(s)
    def atoms(s):
        return {a for m in s.t for a,_ in m}
    def coeff_split(s,v):
        """s = sum_e c_e * v^e  for atom v (only top level occurrences); None if v occurs inside another atom"""
        out={}
        for m,c in s.t.items():
            e=0; r=[]
            for a,k in m:
                if a is v: e=k
                else:
                    if v in a.fv: return None
                    r.append((a,k))
            p=out.setdefault(e,{}); p[tuple(r)]=p.get(tuple(r),0)+c
        return {e:Poly(p) for e,p in out.items()}
class TooBig(Exception): pass
def mmul(m,n):
    if not m: return n
    if not n: return m
    d=dict(m)
    for a,e in n: d[a]=d.get(a,0)+e
    return tuple(sorted(d.items(),key=lambda x:x[0].id))
def P(x):
    if isinstance(x,Poly): return x
    if isinstance(x,bool): raise TypeError('bool as poly')
    if isinstance(x,(int,Fraction)): return Poly({():x} if x else {})
    if isinstance(x,Atom): return x.poly
    raise TypeError(repr(x))
ZERO=Poly({}); ONE=Poly({():1})

def Var(name,sort='I'): return atom('var',(name,),sort).poly
_fresh=itertools.count()
def fresh(name='t',sort='I'): return Var('%s!%d'%(name,next(_fresh)),sort)
def the_atom(p):
    """the atom if p is exactly one atom"""
    if len(p.t)==1:
        (m,c),=p.t.items()
        if c==1 and len(m)==1 and m[0][1]==1: return m[0][0]
    return None

# ------------------------------------------------------------ booleans
class Bool:
    __slots__=('k','a','fv','lvl','_h')
    def __repr__(s): return show_bool(s)
    def __hash__(s): return id(s)
_bools={}
def mkbool(k,a):
    key=(k,a); b=_bools.get(key)
    if b is None:
        b=Bool(); b.k=k; b.a=a; fv=frozenset(); lvl=-1
        for x in _flat(a):
            if isinstance(x,(Poly,Bool)): fv|=x.fv; lvl=max(lvl,x.lvl)
        b.fv=fv; b.lvl=lvl
        if k in('forall','exists'): b.fv=b.fv-{x for x in b.a[0]}
        _bools[key]=b
    return b
TRUE=mkbool('true',()); FALSE=mkbool('false',())
def _is_real(p): return p.real
def _iteb(p,rel):
    """a relation on a conditional of constants is a condition"""
    if len(p.t)>2: return None
    for m,c in p.t.items():
        if len(m)==1 and m[0][1]==1 and m[0][0].kind=='ite':
            a=m[0][0]; g,x,y=a.args
            if x.is_const() and y.is_const() and (len(p.t)==1 or () in p.t):
                k=P(p.t.get((),0)); rx=rel(x*c+k); ry=rel(y*c+k)
                if rx is ry: return rx
                return g if rx is TRUE else Not(g)
    return None
def le0(p):
    if p.is_const(): return TRUE if p.const()<=0 else FALSE
    r=_iteb(p,le0)
    if r is not None: return r
    if not p.real: p=_gcd_norm(p)
    return mkbool('<=',(p,))
def _gcd_norm(p):
    from math import gcd,floor
    g=0
    for m,c in p.t.items():
        if m: g=gcd(g,abs(c))
    if g>1:
        c=p.t.get((),0)
        t={m:k//g for m,k in p.t.items() if m}
        cc=-((-c)//g)      # ceil(c/g): g*q+c<=0 <=> q<=floor(-c/g) <=> q+ceil(c/g)<=0
        if cc: t[()]=cc
        return Poly(t)
    return p
def lt0(p):
    if p.is_const(): return TRUE if p.const()<0 else FALSE
    r=_iteb(p,lt0)
    if r is not None: return r
    if p.real: return mkbool('<',(p,))
    return le0(p+1)
def eq0(p):
    if p.is_const(): return TRUE if p.const()==0 else FALSE
    r=_iteb(p,eq0)
    if r is not None: return r
    ms=sorted(p.t.items(),key=lambda mc:[(a.id,e) for a,e in mc[0]])
    if ms[-1][1]<0: p=-p
    return mkbool('==',(p,))
def LE(a,b): return le0(P(a)-P(b))
def LT(a,b): return lt0(P(a)-P(b))
def GE(a,b): return LE(b,a)
def GT(a,b): return LT(b,a)
def EQ(a,b): return eq0(P(a)-P(b))
def NE(a,b): return Not(EQ(a,b))
def Not(b):
    if b is TRUE: return FALSE
    if b is FALSE: return TRUE
    if b.k=='not': return b.a[0]
    if b.k=='<=': return lt0(-b.a[0])
    if b.k=='<': return le0(-b.a[0])
    if b.k=='and': return Or(*[Not(x) for x in b.a])
    if b.k=='or': return And(*[Not(x) for x in b.a])
    return mkbool('not',(b,))
def And(*bs):
    o=[]
    for b in bs:
        if b is FALSE: return FALSE
        if b is TRUE: continue
        for x in (b.a if b.k=='and' else (b,)):
            if x not in o: o.append(x)
    for x in o:
        if Not(x) in o: return FALSE
    for x in o:      # p<=0 and p!=0  is  p<0
        if x.k=='not' and x.a[0].k=='==' and not x.a[0].a[0].real:
            for s in (x.a[0].a[0],-x.a[0].a[0]):
                l=mkbool('<=',(s,))
                if l in o:
                    r=[y for y in o if y is not l and y is not x]
                    return And(*r,lt0(s))
    if not o: return TRUE
    if len(o)==1: return o[0]
    return mkbool('and',tuple(o))
def Or(*bs):
    o=[]
    for b in bs:
        if b is TRUE: return TRUE
        if b is FALSE: continue
        for x in (b.a if b.k=='or' else (b,)):
            if x not in o: o.append(x)
    for x in o:
        if (Not(x) if x.k not in('and','or') else None) in o: return TRUE
    if not o: return FALSE
    if len(o)==1: return o[0]
    return mkbool('or',tuple(o))
def Implies(a,b): return Or(Not(a),b)
def Iff(a,b):
    if a is b: return TRUE
    if a is TRUE: return b
    if b is TRUE: return a
    if a is FALSE: return Not(b)
    if b is FALSE: return Not(a)
    return And(Implies(a,b),Implies(b,a))
def BApp(name,*args): return mkbool('bapp',(name,)+tuple(args))
def Forall(vs,body):
    """vs: list of variable polys; body Bool"""
    return mkbool('forall',(tuple(the_atom(v) for v in vs),body))

# ------------------------------------------------------------ compound atoms
def Ite(c,a,b):
    a=P(a); b=P(b)
    if c is TRUE or a==b: return a
    if c is FALSE: return b
    if c.k=='not': return Ite(c.a[0],b,a)
    s='R' if (a.real or b.real) else 'I'
    return atom('ite',(c,a,b),s).poly
def Sel(base,idx,comp=0,sort='R'): return atom('sel',(base,P(idx),comp),sort).poly
def App(name,*args,sort='R'): return atom('app',(name,)+tuple(args),sort).poly
def Prod(base,lo,hi,fp=0):
    """product of Sel(base,j) for lo<=j<hi ; 1 when hi<=lo"""
    lo=P(lo); hi=P(hi)
    d=(hi-lo)
    if d.is_const():
        if d.const()<=0: return ONE
        if d.const()<=8:
            r=ONE
            for i in range(d.const()): r=r*Sel(base,lo+i,0,'I')
            return r
    return atom('prod',(base,lo,hi),'I').poly
def Div(a,b):
    """C truncating division"""
    a=P(a); b=P(b)
    if b.is_const() and a.is_const() and b.const()!=0 and not a.real and not b.real:
        q=abs(a.const())//abs(b.const()); return P(q if (a.const()>=0)==(b.const()>0) else -q)
    if b==ONE: return a
    q=exact_div(a,b)
    if q is not None: return q
    return atom('div',(a,b),'I').poly
def Mod(a,b):
    a=P(a); b=P(b)
    if b==ONE: return ZERO
    q=exact_div(a,b)
    if q is not None: return ZERO
    return a-b*Div(a,b)
def Inv(p):
    if p.is_const() and p.const()!=0: return P(Fraction(1)/p.const())
    if len(p.t)==1:
        (m,c),=p.t.items()
        r=P(Fraction(1)/c)
        for a,e in m:
            if a.kind=='inv': r=r*a.args[0]**e
            else: r=r*(atom('inv',(a.poly,),'R').poly**e)
        return r
    return atom('inv',(p,),'R').poly
def exact_div(p,q):
    r=exact_div0(p,q)
    if r is not None or not q.is_const(): return r
    its=[(m,c) for m,c in p.t.items() if len(m)==1 and m[0][1]==1 and m[0][0].kind=='ite']
    for m,c in its:
        a=m[0][0]; rest=p-a.poly*c
        x=exact_div(a.args[1]*c+rest,q); y=exact_div(a.args[2]*c+rest,q)
        if x is not None and y is not None: return Ite(a.args[0],x,y)
    return None
def exact_div0(a,b):
    """polynomial q with q*b==a (integer coefficients), or None"""
    if not b.t: return None
    if not a.t: return ZERO
    lead=lambda p:max(p.t.items(),key=lambda mc:(sum(e for _,e in mc[0]),[(-x.id,e) for x,e in mc[0]]))
    bm,bc=lead(b); q={}; r=a; n=0
    while r.t:
        n+=1
        if n>200: return None
        # find a monomial of r divisible by bm
        rm,rc=lead(r)
        d=dict(rm); ok=True
        for x,e in bm:
            if d.get(x,0)<e: ok=False; break
            d[x]-=e
            if not d[x]: del d[x]
        if not ok: return None
        c=Fraction(rc,1)/bc if not isinstance(rc,Fraction) else rc/bc
        if c.denominator!=1 and not a.real: return None
        t=Poly({tuple(sorted(d.items(),key=lambda x:x[0].id)):c})
        r=r-t*b
        k=next(iter(t.t)); q[k]=q.get(k,0)+t.t[k]
    return Poly(q)

# ------------------------------------------------------------ sums
def Sum(v,n,body):
    """sum of body for v in [0,n) ; v a variable poly (bound)"""
    return MSum([(the_atom(v),P(n))],body)
def MSum(vs,body):
    """vs: [(atom,bound)] outermost first. Linear normal form."""
    for k in range(len(vs)-1,-1,-1):
        body=_sum1(vs[k][0],vs[k][1],body)
    return body
def _sum1(v,n,body):
    if n.is_const() and n.const()<=0: return ZERO
    if n==ONE: return subst(body,{v:ZERO})
    out=ZERO
    for m,c in body.t.items():
        dep=[(a,e) for a,e in m if v in a.fv]; ind=[(a,e) for a,e in m if v not in a.fv]
        coef=Poly({tuple(ind):c})
        if not dep: out=out+coef*n; continue
        sums=[(a,e) for a,e in dep if a.kind=='sum']
        if len(sums)==1 and sums[0][1]==1:
            a=sums[0][0]; bounds,bod,names=a.args
            fr=[the_atom(fresh('s')) for _ in names]
            mp={atom('var',(nm,),'I'):f.poly for nm,f in zip(names,fr)}
            inner=[(f,subst(b,mp)) for f,b in zip(fr,bounds)]
            ib=subst(bod,mp)
            rest=Poly({tuple(x for x in dep if x[0] is not a):1})
            out=out+coef*_mksum([(v,n)]+inner,ib*rest)
        elif len(dep)==1 and dep[0][1]==1 and dep[0][0].kind=='ite' and dep[0][0].args[1].is_const() and dep[0][0].args[2].is_const() and not (dep[0][0].args[1]==ONE and dep[0][0].args[2]==ZERO):
            cnd,x,y=dep[0][0].args       # counting form
            out=out+coef*(y*n+(x-y)*_mksum([(v,n)],Ite(cnd,ONE,ZERO)))
        else:
            out=out+coef*_mksum([(v,n)],Poly({tuple(dep):1}))
    return out
def _mksum(vs,body):
    """body a single monomial-ish polynomial; build canonical atom"""
    if len(body.t)!=1 or any(True for m,c in body.t.items() if c!=1):
        # re-expand
        r=body
        for v,n in reversed(vs): r=_sum1(v,n,r)
        return r
    lvl=max([body.lvl]+[n.lvl for _,n in vs])+1
    names=['@%d.%d'%(lvl,i) for i in range(len(vs))]
    indep=all(not any(w in n.fv for w,_ in vs) for _,n in vs)
    best=None
    perms=itertools.permutations(range(len(vs))) if indep and len(vs)<=4 else [tuple(range(len(vs)))]
    for pm in perms:
        mp={vs[i][0]:Var(names[j]) for j,i in enumerate(pm)}
        bs=tuple(subst(vs[i][1],mp) for i in pm); bd=subst(body,mp)
        key=_pkey(bd),tuple(_pkey(b) for b in bs)
        if best is None or key<best[0]: best=(key,bs,bd)
    return atom('sum',(best[1],best[2],tuple(names)),'R' if body.real else 'I').poly
def _pkey(p):
    return tuple(sorted((tuple((a.id,e) for a,e in m),(c.numerator,c.denominator)) for m,c in p.t.items()))
def PFold(v,n,body):
    """product of body over v in [0,n)"""
    v=the_atom(v); n=P(n)
    if n.is_const() and n.const()<=0: return ONE
    if v not in body.fv and n.is_const(): return body**n.const()
    lvl=max(body.lvl,n.lvl)+1; nm='@%d.0'%lvl
    return atom('pfold',((n,),subst(body,{v:Var(nm)}),(nm,)),'R' if body.real else 'I').poly
def Fold(init,acc,v,n,body):
    """acc_0=init; acc_{j+1}=body[acc,v:=j]; value after n steps"""
    acc=the_atom(acc); v=the_atom(v)
    lvl=max(body.lvl,P(n).lvl,init.lvl)+1; nm='@%d.0'%lvl; an='@%d.1'%lvl
    b=subst(body,{acc:Var(an,acc.sort),v:Var(nm)})
    return atom('fold',((init,P(n)),b,(nm,an)),'R' if (body.real or init.real) else 'I').poly

# ------------------------------------------------------------ substitution
def subst(x,mp,memo=None):
    """mp: Atom -> Poly (any atoms, not only variables)"""
    if memo is None: memo={}
    keys=mp.keys()
    return _sub(x,mp,memo)
def _touch(fv,mp):
    for k in mp:
        if k.kind!='var': return True
        if k in fv: return True
    return False
def _sub(x,mp,memo):
    if isinstance(x,Poly):
        if not _touch(x.fv,mp): return x
        r=memo.get(x)
        if r is not None: return r
        out={}
        simple=True
        acc=ZERO
        for m,c in x.t.items():
            term=Poly({():c}); keep=[]
            for a,e in m:
                s=_suba(a,mp,memo)
                if s is a.poly: keep.append((a,e))
                else: term=term*(s if e==1 else s**e)
            if keep: term=term*Poly({tuple(keep):1})
            acc=acc+term
        memo[x]=acc
        return acc
    if isinstance(x,Bool):
        if not _touch(x.fv,mp): return x
        k=x.k
        if k=='<=': return le0(_sub(x.a[0],mp,memo))
        if k=='<': return lt0(_sub(x.a[0],mp,memo))
        if k=='==': return eq0(_sub(x.a[0],mp,memo))
        if k=='not': return Not(_sub(x.a[0],mp,memo))
        if k=='and': return And(*[_sub(y,mp,memo) for y in x.a])
        if k=='or': return Or(*[_sub(y,mp,memo) for y in x.a])
        if k=='bapp': return BApp(x.a[0],*[_sub(y,mp,memo) if isinstance(y,(Poly,Bool)) else y for y in x.a[1:]])
        if k in('forall','exists'):
            m2={a:p for a,p in mp.items() if a not in x.a[0]}
            return mkbool(k,(x.a[0],subst(x.a[1],m2)))
        return x
    raise TypeError(repr(x))
def _suba(a,mp,memo):
    r=mp.get(a)
    if r is not None: return r
    if a.kind=='var' or not _touch(a.fv,mp): return a.poly
    r=memo.get(a)
    if r is not None: return r
    S=lambda y:_sub(y,mp,memo)
    k=a.kind
    if k=='sel': r=Sel(a.args[0],S(a.args[1]),a.args[2],a.sort)
    elif k=='ite': r=Ite(S(a.args[0]),S(a.args[1]),S(a.args[2]))
    elif k=='prod': r=Prod(a.args[0],S(a.args[1]),S(a.args[2]))
    elif k=='div': r=Div(S(a.args[0]),S(a.args[1]))
    elif k=='inv': r=Inv(S(a.args[0]))
    elif k=='app': r=App(a.args[0],*[S(y) if isinstance(y,(Poly,Bool)) else y for y in a.args[1:]],sort=a.sort)
    elif k=='sum':
        bounds,body,names=a.args
        fr=[the_atom(fresh('s')) for _ in names]
        m0={atom('var',(nm,),'I'):f.poly for nm,f in zip(names,fr)}
        r=MSum([(f,S(subst(b,m0))) for f,b in zip(fr,bounds)],S(subst(body,m0)))
    elif k=='pfold':
        (n,),body,(nm,)=a.args; f=fresh('s')
        r=PFold(f,S(n),S(subst(body,{atom('var',(nm,),'I'):f})))
    elif k=='fold':
        (init,n),body,(nm,an)=a.args; f=fresh('s'); so='R' if (a.sort=='R') else 'I'
        avs=[v for v in body.fv if v.args[0]==an]; so=avs[0].sort if avs else so
        g=fresh('acc',so)
        r=Fold(S(init),g,f,S(n),S(subst(body,{atom('var',(nm,),'I'):f,atom('var',(an,),so):g})))
    else: raise TypeError(k)
    memo[a]=r
    return r

_aa={}
_EMPTY=frozenset()
def all_atoms(x,out=None):
    """every atom occurring anywhere inside x"""
    r=_aa.get(x)
    if r is None:
        r=set()
        if isinstance(x,Poly):
            for m in x.t:
                for a,_ in m:
                    r.add(a); r|=_atoms_of(a)
        elif isinstance(x,Bool):
            for y in _flat(x.a):
                if isinstance(y,(Poly,Bool)): r|=all_atoms(y)
        r=frozenset(r); _aa[x]=r
    if out is not None: out|=r
    return r
_ao={}
def _atoms_of(a):
    r=_ao.get(a)
    if r is None:
        r=set()
        for y in _flat(a.args):
            if isinstance(y,(Poly,Bool)): r|=all_atoms(y)
        r=frozenset(r); _ao[a]=r
    return r

# ------------------------------------------------------------ printing
def show(p,d=0):
    if not p.t: return '0'
    o=[]
    for m,c in sorted(p.t.items(),key=lambda mc:[(a.id,e) for a,e in mc[0]]):
        f=[show_atom(a,d)+('^%d'%e if e>1 else '') for a,e in m]
        if c!=1 or not f: f.insert(0,str(c))
        o.append('*'.join(f))
    return ' + '.join(o)
def show_atom(a,d=0):
    if d>6: return '..'
    k=a.kind; s=lambda x: show(x,d+1) if isinstance(x,Poly) else show_bool(x,d+1) if isinstance(x,Bool) else str(x)
    if k=='var': return a.args[0]
    if k=='sel': return '%s[%s]%s'%(a.args[0],s(a.args[1]),'' if a.args[2]==0 else '.%s'%a.args[2])
    if k=='ite': return 'ite(%s,%s,%s)'%tuple(map(s,a.args))
    if k=='prod': return 'prod(%s,%s..%s)'%(a.args[0],s(a.args[1]),s(a.args[2]))
    if k=='sum': return 'sum{%s}(%s)'%(','.join('%s<%s'%(n,s(b)) for n,b in zip(a.args[2],a.args[0])),s(a.args[1]))
    if k=='fold': return 'fold{%s<%s;init %s}(%s)'%(a.args[2][0],s(a.args[0][1]),s(a.args[0][0]),s(a.args[1]))
    if k=='pfold': return 'pfold{%s<%s}(%s)'%(a.args[2][0],s(a.args[0][0]),s(a.args[1]))
    if k=='app': return '%s(%s)'%(a.args[0],','.join(map(s,a.args[1:])))
    return '%s(%s)'%(k,','.join(map(s,a.args)))
def show_bool(b,d=0):
    if d>6: return '..'
    if b.k in('true','false'): return b.k
    s=lambda x: show(x,d+1) if isinstance(x,Poly) else show_bool(x,d+1) if isinstance(x,Bool) else str(x)
    if b.k in('<=','<','=='):
        return '(%s %s 0)'%(s(b.a[0]),b.k)
    if b.k=='not' and b.a[0].k=='==': return '(%s != 0)'%s(b.a[0].a[0])
    if b.k=='forall': return 'forall %s. %s'%(','.join(v.args[0] for v in b.a[0]),s(b.a[1]))
    return '%s(%s)'%(b.k,', '.join(map(s,b.a)))
