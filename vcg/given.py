"""Loops outside the template: the invariant is given with the contract and checked here - at entry, after an arbitrary
   iteration (assumed before it), the frame, and a variant that decreases.  Relations between the program's loop variables and
   the invariant's own cursors are found among candidates (those that are not inductive are dropped)."""
from terms import *
from terms import exact_div
from prover import prove, feasible, Facts
import symexec as X
import os
DBG=os.environ.get("DBG")

class View:
    """values at a loop header"""
    def __init__(s,ex,st,phi,facts): s.ex=ex; s.st=st; s.phi=phi; s.f=facts
    def rd(s,buf,i,comp=0,facts=None): return X.read_content(s.ex,facts or s.f,s.st.mem[buf].content,P(i),comp)
class Clause:
    """for q in [lo,hi), if when: body(q);  all parts are functions of the view and the facts known to hold"""
    def __init__(s,name,when,rng,body): s.name=name; s.when=when; s.rng=rng; s.body=body
def fact(name,b,when=None): return Clause(name,when,None,b)
def every(name,rng,b,when=None): return Clause(name,when,rng,b)

def instance(cl,v,g,facts,q):
    w=cl.when(v,g,facts) if cl.when else TRUE
    f=facts.add(w)
    if cl.rng is None: return w,f,(lambda: cl.body(v,g,f))
    lo,hi=cl.rng(v,g,f); w=And(w,GE(q,lo),LT(q,hi)); f=facts.add(w)
    return w,f,(lambda: cl.body(v,g,f,q))
def assumed(cls,v,g,facts):
    out=[]
    for cl in cls:
        q=fresh('q'); w,f,b=instance(cl,v,g,facts,q); b=Implies(w,b())
        out.append(b if cl.rng is None else Forall((q,),b))
    return out
def holds(ex,st,cl,v,g,facts):
    q=fresh('q')
    if cl.when and prove(facts.add(cl.when(v,g,facts)),FALSE): return True
    w,f,b=instance(cl,v,g,facts,q)
    if w is FALSE or prove(f,FALSE): return True
    if DBG: print('  clause',cl.name,flush=True)
    goal=b()
    return prove(f,goal) or X.prove_deep(f,goal) or by_cases(f,goal)
def by_cases(f,goal,depth=0):
    if goal.k=='and': return all(by_cases(f,x,depth) for x in goal.a)
    if prove(f,goal): return True
    if depth>=4: return False
    if goal.k=='or':
        # prove the last alternative from the negation of the others
        g=f.add(*[Not(x) for x in goal.a[:-1]])
        if prove(g,goal.a[-1]): return True
        f=g; goal=goal.a[-1]
    for a in all_atoms(goal):
        if a.kind=='ite':
            c=a.args[0]
            return by_cases(f.add(c),subst(goal,{a:a.args[1]}),depth+1) and by_cases(f.add(Not(c)),subst(goal,{a:a.args[2]}),depth+1)
    return False

FIELDS={'triplet':lambda c: 'I' if c<16 else 'R'}       # kinds whose elements mix integers and numbers
def unknown(kind):
    n='gv!%s'%X.newid('h')
    if kind in FIELDS: return X.lam_content(lambda i,c: Sel(n,i,c,FIELDS[kind](c)))
    return X.init_content(n,X.sort_of(kind) if kind in X.ESZ else 'R')
def handle(ex,f,st,regs,L,prev,inv):
    H=f.blocks[L.header]; mod=f.module
    init={}; ty={}
    for ph in H.phis:
        for v,b in ph.a[0]:
            if b==prev: init[ph.res]=ex.val(st,regs,v,ph.ty,mod); break
        else: raise X.Unsupported('phi edge')
        ty[ph.res]=ph.ty
    I=inv(ex,f,st,init,ty)
    if not I.match(): return None
    if not ex.mute: ex.loops+=1
    names=sorted(init)
    def fresh_of(v,r):
        if isinstance(v,X.Ptr):
            if v.obj is None: return v
            o=st.mem.get(v.obj); return X.Ptr(v.obj,v.off+fresh('p')*(o.esz if isinstance(o,X.Buf) else 8))
        if isinstance(v,Bool): return BApp('phi!%d'%id(object()))
        if isinstance(v,Poly): return fresh('x','R' if ty[r][0]=='f' else 'I')
        if v is X.UNDEF: return v
        return v
    hv={r:fresh_of(init[r],r) for r in names}
    # ---- which memory changes (to a fixed point, exploratory)
    bufs=list(I.writes()); cells={}
    eq={r:list(I.candidates(r)) for r in names}      # (text, function of (view,ghosts)) candidates for every loop variable
    def header(phi,sh,contents):
        s1=st.copy(); s1.br=()
        for b in bufs: s1.w(b).content=contents[b]
        for (oid,off),(sz,v) in sh.items():
            o=s1.w(oid); o.abs.pop(off,None)
            o.cells[off]=(sz,known[oid,off](View(ex,s1,phi,s1.facts),gh) if (oid,off) in known else v)      # that it has this value is one of the clauses
        for oid in scratch:      # local containers that are set anew in every iteration: some storage of their own
            o=s1.w(oid)
            for off,r in list(o.abs.items()):
                old=s1.mem[r.buf]; nb=X.newid('buf'); n=fresh('n'); s1.mem[nb]=X.Buf(nb,old.esz,old.kind,n,unknown(old.kind)); s1.assume(GE(n,0)); o.abs[off]=X.AbsRef(nb)
        return s1
    scratch=list(I.scratch())
    def owned(s1): return [r.buf for oid in scratch for r in s1.mem[oid].abs.values()]
    def scratch_ok(s1,like):
        b=owned(s1); return len(set(b))==len(b) and all(s1.mem[x].owners==1 and not s1.mem[x].freed for x in b) and all({k:s1.mem[r.buf].kind for k,r in s1.mem[oid].abs.items()}=={k:like[r.buf].kind for k,r in like[oid].abs.items()} and s1.mem[oid].cells==like[oid].cells for oid in scratch)
    def sc0(mem): return {r.buf for oid in scratch for r in mem[oid].abs.values()}
    if not scratch_ok(st,st.mem): raise X.Unsupported('given invariant: containers that share storage')
    def value_eq(a,b):
        if isinstance(a,X.Ptr) or isinstance(b,X.Ptr):
            return EQ(a.off,b.off) if isinstance(a,X.Ptr) and isinstance(b,X.Ptr) and a.obj==b.obj else FALSE
        return EQ(a,b) if isinstance(a,Poly) and isinstance(b,Poly) else TRUE if a is b else FALSE
    g0=I.ghosts0()
    v0=View(ex,st,init,st.facts)
    fi=st.facts.add(*I.instances(v0,g0))
    for r in names: eq[r]=[e for e in eq[r] if prove(fi,value_eq(init[r],e(v0,g0)))]
    known=I.cells_are(); cls=I.clauses()+[fact('value in '+o.split('!')[0],(lambda o,off,e: lambda v,g,f: EQ(v.st.mem[o].cells[off][1],e(v,g)))(o,off,e)) for (o,off),e in known.items()]
    gh={k:fresh('g'+k,'I') for k in g0}
    def run(muted):
        contents={b:unknown(st.mem[b].kind) for b in bufs}
        s1=header(hv,cells,contents); now=dict(hv); vh=View(ex,s1,now,s1.facts)
        for r in names:      # a variable known to equal an expression is that expression
            if eq[r] and isinstance(now[r],(Poly,X.Ptr)):
                e=eq[r][0](vh,gh)
                if isinstance(e,Poly) or isinstance(e,X.Ptr) and isinstance(now[r],X.Ptr) and e.obj==now[r].obj: now[r]=e
        r1=dict(regs); r1.update(now)
        s1.assume(*[value_eq(w,e(vh,gh)) for r in names for w in (now[r],hv[r]) for e in eq[r] if w is not hv[r] or now[r] is hv[r]])
        vh.f=s1.facts
        s1.assume(*assumed(cls,vh,gh,s1.facts)); s1.assume(*I.instances(vh,gh)); vh.f=s1.facts
        I.enter(s1,vh,gh); mem0=dict(s1.mem)
        if muted: ex.mute+=1
        try: outs=ex.run(f,s1,r1,L.header,None,L,skip_header=True)
        finally:
            if muted: ex.mute-=1
        return outs,mem0,vh
    def phis_at(o):
        r={}
        for ph in H.phis:
            for v,b in ph.a[0]:
                if b==o[3]: r[ph.res]=ex.val(o[1],o[2],v,ph.ty,mod)
        return r
    for rnd in range(12):
        outs,mem0,vh=run(True); new=False
        lat=[o for o in outs if o[0]=='latch' and feasible(o[1].facts)]
        for o in lat:
            for oid,old in mem0.items():
                cur=o[1].mem.get(oid)
                if cur is old or oid in scratch: continue
                if oid in sc0(mem0): continue
                if cur is None: raise X.Unsupported('object vanished in loop')
                if isinstance(old,X.Buf):
                    if cur.content is not old.content and oid not in bufs: bufs.append(oid); new=True
                    if cur.owners!=old.owners or cur.freed!=old.freed or cur.n!=old.n or cur.esz!=old.esz: raise X.Unsupported('buffer changes hands in loop')
                else:
                    if cur.abs!=old.abs: raise X.Unsupported('shared pointer changes in loop')
                    for cc in set(cur.cells)|set(old.cells):
                        a=cur.cells.get(cc)
                        if a!=old.cells.get(cc) and (oid,cc) not in cells and a is not None:
                            cells[(oid,cc)]=(a[0],fresh('c','R' if isinstance(a[1],Poly) and a[1].real else 'I')); new=True
        if new: continue
        dropped=False
        for o in lat:
            pv=phis_at(o); vp=View(ex,o[1],pv,o[1].facts); gp=I.update(gh,vh,vp,o[1].facts)
            for r in names:
                keep=[]
                for e in eq[r]:
                    w=value_eq(pv[r],e(vp,gp))
                    if prove(o[1].facts,w): keep.append(e)
                    else: dropped=True
                eq[r]=keep
        if not dropped: break
    else: raise X.Unsupported('given invariant: no fixed point')
    if cells and not I.cells_change: raise X.Unsupported('given invariant: memory cells change')
    def need(st1,cl,v,g,facts,when):
        if I.checked_elsewhere or ex.mute: return      # what is explored is decided again
        ok=holds(ex,st1,cl,v,g,facts)
        if not ex.mute: ex.log('invariant %s (%s)'%(cl.name,when),ok,'z3','' if ok else 'not established')
        if not ok and DBG=='2': print('GOAL',[show_bool(x) for x in (lambda q: [cl.body(v,g,facts)] if cl.rng is None else [cl.body(v,g,facts,q)])(fresh('q'))],'NOTES',[show_bool(b) for b in facts.l if b.k!='forall'])
        if not ok: raise X.Failed('loop invariant: %s (%s)'%(cl.name,when),'; '.join(show_bool(b) for b in facts.l[-14:])[:600])
    st=st.copy(); st.assume(*I.instances(v0,g0)); v0=View(ex,st,init,st.facts)
    for cl in cls: need(st,cl,v0,g0,st.facts,'on entry')
    outs,mem0,vh=run(False)
    res=[]
    for o in outs:
        if not feasible(o[1].facts): continue
        if o[0]!='latch': I.leave(o,gh,vh); res.append(o); continue
        if I.checked_elsewhere or ex.mute: continue
        pv=phis_at(o); fs=o[1].facts; vp=View(ex,o[1],pv,fs); gp=I.update(gh,vh,vp,fs)
        for r in names:
            for e in eq[r]:
                w=value_eq(pv[r],e(vp,gp))
                if not (prove(fs,w) or X.prove_deep(fs,w)): raise X.Failed('loop invariant: cursors',show_bool(w))
        for cl in cls: need(o[1],cl,vp,gp,fs,'kept')
        a,b=I.variant(vh,gh),I.variant(vp,gp)
        ok=prove(fs,And(GE(a,0),LT(b,a)))
        if not ex.mute: ex.log('loop variant decreases',ok)
        if not ok: raise X.Failed('loop variant decreases','%s to %s'%(show(a),show(b)))
        if not scratch_ok(o[1],mem0): raise X.Failed('loop frame','containers that share storage')
        for oid,old in mem0.items():
            cur=o[1].mem.get(oid)
            if oid in scratch or oid in sc0(mem0): continue
            if cur is not old and not(isinstance(old,X.Buf) and oid in bufs) and not (isinstance(old,X.Cells) and cur.abs==old.abs and all(cur.cells.get(cc)==old.cells.get(cc) or (oid,cc) in cells for cc in set(cur.cells)|set(old.cells))): raise X.Failed('loop frame',str(oid))
    return res
class Inv:
    def __init__(s,ex,f,st,init,ty): s.ex=ex; s.f=f; s.st=st; s.init=init; s.ty=ty
    def ghosts0(s): return {}
    def update(s,g,v,vp,facts): return {}
    def candidates(s,r): return []
    cells_change=False
    def cells_are(s): return {}      # (object, offset) -> value of the cell, as a function of (view,ghosts)
    checked_elsewhere=False      # another contract of the same property checks this invariant on the same loop
    def leave(s,o,g,v): pass
    def writes(s): return []
    def scratch(s): return []      # containers local to the loop
    def enter(s,st,v,g): pass
    def instances(s,v,g): return []      # instances of the preconditions
def same_sum(facts,a,b):
    """a==b, comparing sums over one common range term by term"""
    if a==b or prove(facts,EQ(a,b)): return True
    d=a-b; n=None; q=fresh('q'); body=ZERO; rest=ZERO
    for m,c in d.t.items():
        ss=[x for x,e in m if x.kind=='sum' and e==1 and len(x.args[0])==1]
        if len(ss)==1 and len(m)==1 and (n is None or n==ss[0].args[0][0]):
            x=ss[0]; n=x.args[0][0]; body=body+subst(x.args[1],{atom('var',(x.args[2][0],),'I'):q})*c
        else: rest=rest+Poly({m:c})
    if n is None: return False
    r=exact_div(rest,n) if rest!=ZERO else ZERO
    if r is None: return False
    f=facts.add(GE(q,0),LT(q,n)); goal=EQ(body+r,0)
    return prove(f,goal) or by_cases(f,goal)
