"""Loop rule of the generator: synthesise an invariant, check it, leave the loop through it."""
from terms import *
from prover import prove, feasible, Facts
import symexec as X

HINTS={}
class NeedPeel(Exception): pass
class MixedUndef(Exception): pass
class NeedSplit(Exception): pass

def handle_loop(ex,f,st,regs,L,prev,peels=0):
    mark0=len(ex.obl)
    for inv in getattr(ex,'invs',()):
        import given
        r=given.handle(ex,f,st,regs,L,prev,inv)
        if r is not None: return r
    try:
        return summarize(ex,f,st,regs,L,prev)
    except NeedSplit as e:
        # several exit conditions: one case per order of their trip counts
        del ex.obl[mark0:]; res=[]
        for b in(e.args[0],Not(e.args[0])):
            s1=st.copy(); s1.assume(b); s1.br=st.br+(b,)
            if feasible(s1.facts): res+=handle_loop(ex,f,s1,dict(regs),L,prev,peels)
        return res
    except (X.Unsupported,NeedPeel,X.Failed) as e:
        err=e
    if isinstance(err,X.Failed) and not ex.mute and getattr(err,'final',False): raise err
    if peels<2 or (peels<12):
        del ex.obl[mark0:]      # the attempt is redone from the start
        mark=len(ex.obl)
        outs=peel(ex,f,st,regs,L,prev)
        lat=[o for o in outs if o[0]=='latch']
        if peels>=1 and len(outs)>1 and not isinstance(err,NeedPeel): 
            del ex.obl[mark:]; 
            raise _as_unsupported(err)
        if len(lat)>3 or (peels>=2 and len(outs)>1):
            del ex.obl[mark:]; raise _as_unsupported(err)
        res=[o for o in outs if o[0]!='latch']
        for o in lat:
            try:
                res+=handle_loop(ex,f,o[1],o[2],L,o[3],peels+1)
            except (X.Unsupported,X.Failed) as e2:
                del ex.obl[mark:]
                raise (e2 if peels>0 or isinstance(err,NeedPeel) else _as_unsupported(err))
        return res
    raise _as_unsupported(err)
def _as_unsupported(e):
    if isinstance(e,NeedPeel): return X.Unsupported('loop: '+str(e))
    return e
def peel(ex,f,st,regs,L,prev):
    return ex.run(f,st.copy(),regs,L.header,prev,L)

def has_hv(x):
    return any(a.kind=='sel' and str(a.args[0]).startswith('hv!') for a in all_atoms(x))

def summarize(ex,f,st,regs,L,prev):
    H=f.blocks[L.header]; mod=f.module
    k=fresh('k'); ka=the_atom(k)
    if not ex.mute: ex.loops+=1
    keys=[]; init={}; ty={}
    for ph in H.phis:
        for v,b in ph.a[0]:
            if b==prev: init[('phi',ph.res)]=ex.val(st,regs,v,ph.ty,mod); break
        else: raise X.Unsupported('phi edge')
        ty[('phi',ph.res)]=ph.ty; keys.append(('phi',ph.res))
    hint=HINTS.get((f.name,L.header))
    bufs={}       # id -> hv name
    def add_buf(b):
        bufs[b]='hv!%s'%X.newid('h')
    def add_cell(oid,off):
        o=st.mem[oid]; key=('cell',oid,off)
        v=o.cells[off][1] if off in o.cells else X.UNDEF
        init[key]=v; keys.append(key)
    if hint:
        for b in hint[0]:
            if b in st.mem and isinstance(st.mem[b],X.Buf): add_buf(b)
        for c in hint[1]:
            if c[0] in st.mem and isinstance(st.mem[c[0]],X.Cells) and ('cell',)+c not in init: add_cell(*c)
    closed={}; place={}; pvar={}; N=None; stepcheck={}
    cellsize={}
    def value_of(key):
        if key in closed: return closed[key]
        i=init[key]
        if key not in place:
            if i is X.UNDEF: place[key]=X.UNDEF
            elif isinstance(i,X.Ptr):
                if i.obj is None: place[key]=i
                else:
                    o=st.mem.get(i.obj); x=fresh('p'); pvar[key]=(x,o.esz if isinstance(o,X.Buf) else 8)
                    place[key]=X.Ptr(i.obj,i.off+x*pvar[key][1])
            elif isinstance(i,Bool):
                place[key]=BApp('phi!%d'%next(_cnt))
            elif isinstance(i,Poly):
                real=i.real
                if key[0]=='phi': real=ty[key][0]=='f'
                place[key]=fresh('x','R' if real else 'I')
            elif isinstance(i,(X.Fn,X.Agg)): place[key]=i
            else: raise X.Unsupported('loop variable %r'%i)
        return place[key]
    def enter(s0,getval,content_of,extra):
        s1=s0.copy(); s1.assume(*extra); s1.br=()
        r1=dict(regs)
        for key in keys:
            v=getval(key)
            if key[0]=='phi': r1[key[1]]=v
            else:
                o=s1.w(key[1]); sz=o.cells.get(key[2],(cellsize.get(key,8),None))[0]; o.abs.pop(key[2],None)
                if v is X.UNDEF: o.cells.pop(key[2],None)
                else: o.cells[key[2]]=(sz,v)
        for b in bufs:
            o=s1.w(b); o.content=content_of(b,o)
        return s1,r1
    hv_root={}
    def hv_content(b,o):
        c=X.init_content(bufs[b],X.sort_of(o.kind) if o.kind in X.ESZ else 'R' if o.kind in('w8','?') else 'I'); hv_root[b]=c; return c
    final=None; last=False
    for rnd in range(10):
        extra=[GE(k,0)]+([LT(k,N)] if N is not None else [])
        s1,r1=enter(st,value_of,hv_content,extra)
        ex.mute+=1; mem0=dict(s1.mem)
        try: outs=ex.run(f,s1,r1,L.header,None,L,skip_header=True)
        finally: ex.mute-=1
        lat=[o for o in outs if o[0]=='latch']
        if not lat: 
            # the body never comes back: not really a loop here
            raise X.Unsupported('loop body never continues')
        # --- what does the body modify
        new=False
        for o in lat:
            m=o[1].mem
            for oid,old in mem0.items():
                cur=m.get(oid)
                if cur is old: continue
                if cur is None: raise X.Unsupported('object vanished in loop')
                if isinstance(old,X.Buf):
                    if cur.content is not old.content and oid not in bufs: add_buf(oid); new=True
                    if cur.owners!=old.owners or cur.freed!=old.freed or cur.external!=old.external: raise NeedPeel('ownership of %s changes in the loop'%oid)
                    if cur.n!=old.n or cur.esz!=old.esz:
                        raise NeedPeel('buffer type discovered in loop')
                else:
                    if cur.abs!=old.abs: raise NeedPeel('shared pointer in %s changes in the loop'%oid)
                    for c in set(cur.cells)|set(old.cells):
                        a=cur.cells.get(c); b=old.cells.get(c)
                        if a!=b and ('cell',oid,c) not in init:
                            if a is not None: cellsize[('cell',oid,c)]=a[0]
                            add_cell(oid,c); new=True
        if new: continue
        U=set()
        for key in keys:
            if key not in closed:
                p=value_of(key)
                if isinstance(p,X.Ptr): U|=pvar[key][0].fv if key in pvar else set()
                elif isinstance(p,Poly): U|=p.fv
                elif isinstance(p,Bool): U.add(p)
        U-={a for key in closed for a in ()}
        common=[b for b in lat[0][1].br if all(any(b is x for x in o[1].br) for o in lat)]      # every iteration that continues satisfies these
        conds=[And(*[b for b in o[1].br if not any(b is x for x in common)]) for o in lat]
        def merged(key):
            vals=[]
            for o in lat:
                if key[0]=='phi':
                    ph=[p for p in H.phis if p.res==key[1]][0]
                    v=[v for v,b in ph.a[0] if b==o[3]][0]
                    vals.append(ex.val(o[1],o[2],v,ph.ty,mod))
                else:
                    c=o[1].mem[key[1]].cells.get(key[2])
                    vals.append(c[1] if c else X.UNDEF)
            r=vals[-1]
            for v,c in list(zip(vals,conds))[-2::-1]:
                if v is r or v==r: continue
                if (v is X.UNDEF or r is X.UNDEF) and init[key] is X.UNDEF: raise MixedUndef(key,(r if v is X.UNDEF else v))
                if isinstance(v,Poly) and isinstance(r,Poly): r=Ite(c,v,r)
                elif isinstance(v,X.Ptr) and isinstance(r,X.Ptr) and v.obj==r.obj: r=X.Ptr(v.obj,Ite(c,v.off,r.off))
                elif isinstance(v,Bool) and isinstance(r,Bool): r=Or(And(c,v),And(Not(c),r))
                else: raise X.Unsupported('loop variable merges %r and %r'%(v,r))
            return r
        progress=False; unsolved=[]
        Uo=lambda x: bool(x.fv & U) or has_hv(x)
        for key in keys:
            if key in closed: continue
            i=init[key]
            try: nx=merged(key)
            except MixedUndef as e:
                # assigned on some iterations only: the initial value is arbitrary
                if not isinstance(e.args[1],Poly): raise X.Unsupported('conditionally assigned loop variable')
                init[key]=fresh('undef','R' if e.args[1].real else 'I'); place.pop(key,None); progress=True; continue
            p=value_of(key)
            if i is X.UNDEF:
                # written before read in every iteration (a read would have met the undefined value)
                closed[key]=X.UNDEF; stepcheck[key]=None; progress=True; continue
            if isinstance(p,X.Ptr):
                if nx==p: closed[key]=i; stepcheck[key]=('same',); progress=True; continue
                if not isinstance(nx,X.Ptr): raise NeedPeel('pointer variable becomes non-pointer')
                if nx.obj!=p.obj: raise NeedPeel('pointer variable changes object')
                x,es=pvar[key]; q=exact_div(nx.off-i.off,P(es))
                if q is None: raise X.Unsupported('pointer step is not a multiple of the element size')
                r=solve(x,ZERO,q,k,U,key,ex,st,N,last)
                if r is None: unsolved.append(key); continue
                sc=r[1]
                if sc[0]!='lin': sc=(sc[0],sc[1]*es+(i.off if sc[0]=='next' else 0))
                closed[key]=X.Ptr(i.obj,i.off+r[0]*es); stepcheck[key]=sc; progress=True; continue
            if isinstance(p,Bool):
                if nx is i or nx is p: closed[key]=i; stepcheck[key]=('same',); progress=True; continue
                if nx is TRUE or nx is FALSE: raise NeedPeel('flag')
                unsolved.append(key); continue
            if isinstance(p,Poly):
                if not isinstance(nx,Poly): raise NeedPeel('loop variable changes kind')
                r=solve(p,i,nx,k,U,key,ex,st,N,last)
                if r is None: unsolved.append(key); continue
                closed[key]=r[0]; stepcheck[key]=r[1]; progress=True; continue
            if nx==p: closed[key]=i; stepcheck[key]=('same',); progress=True; continue
            raise X.Unsupported('loop variable of odd kind')
        # --- trip count
        mp=placemap(place,closed,pvar)
        if N is None:
            exits=[o for o in outs if o[0]=='exit']
            cand=[]
            for o in exits:
                c=[subst(x,mp) for x in o[1].br]
                c=[x for x in c if x is not TRUE]
                c=[x for x in c if not prove(st.facts.add(GE(k,0)),x)]
                cand.append(c)
            for several in(False,True):      # an exit behind other exits bounds the trip count, the others are early exits
                for c in cand:
                    if (len(c)!=1) if not several else len(c)<2: continue
                    for x in reversed(c):
                        if any(a in x.fv for a in U if isinstance(a,Atom)) or has_hv(x):
                            if x.fv & (U-set(mp)): continue
                        n=solve_exit(x,k,ka,st.facts)
                        if n is not None and (not several or not (ka in n.fv)) and N is None: N=n; progress=True; Nexit=x
                    if N is not None: break
                if N is not None or unsolved: break
        if unsolved:
            if not progress and not last: last=True; continue
            if not progress: raise X.Unsupported('no closed form for loop variables %s'%[(q,merged(q)) for q in unsolved][:2])
            continue
        # all solved; accept this round if it was run with the closed forms, or had a single simple path
        if N is None:
            if not place or rnd>0 and not progress: raise X.Unsupported('no trip count')
            if progress: place_used=bool(place); 
            if not progress: raise X.Unsupported('no trip count')
            continue
        if progress and (len(lat)>1 or len([o for o in outs if o[0]!='latch'])>1 or rnd==0 and False):
            continue
        final=(outs,lat,mp); break
    if final is None: raise X.Unsupported('loop analysis did not converge')
    outs,lat,mp=final
    if hint and any(all(o[1].mem[b].content is hv_root[b] for o in lat) for b in bufs):
        # the hint, from another run of the loop, names a buffer that is not written here
        del HINTS[(f.name,L.header)]; return summarize(ex,f,st,regs,L,prev)
    HINTS[(f.name,L.header)]=(tuple(bufs),tuple(q[1:] for q in keys if q[0]=='cell'))
    if any(isinstance(v,Poly) and False for v in ()): pass
    inK=[GE(k,0),LT(k,N)]
    # ------------------------------------------------ N >= 0, and N is the first exit
    results=[]
    base=st
    if not prove(st.facts,GE(N,0)) and not X.prove_deep(st.facts,GE(N,0)):
        # split on the sign of N
        neg=st.copy(); neg.assume(LT(N,0)); neg.br=st.br+(LT(N,0),)
        if feasible(neg.facts):
            ci=subst(Nexit,{ka:ZERO})
            if prove(neg.facts,ci):
                s1=neg; r1=dict(regs)
                for key in keys:
                    if key[0]=='phi': r1[key[1]]=init[key]
                for o in ex.run(f,s1.copy(),r1,L.header,None,L,skip_header=True):
                    if o[0]=='latch':
                        if feasible(o[1].facts): raise X.Failed('loop exit','loop may run with negative trip count')
                    else: results.append(o)
            elif not ex.mute:      # (exploratory rounds of an outer loop do not know its bounds yet; the final round checks this)
                ex.log('loop terminates (trip count is non-negative)',False,'',show(N))
                e=X.Failed('loop terminates (trip count is non-negative)','%s under %s'%(show(N),'; '.join(show_bool(q) for q in st.facts.l[-12:]))); raise e
        base=st.copy(); base.assume(GE(N,0)); base.br=st.br+(GE(N,0),)
    else: ex.log('loop trip count is non-negative',True)
    fk=base.facts.add(*inK)
    if not prove(fk,Not(Nexit)): raise X.Failed('trip count: no earlier exit',show_bool(Nexit))
    if not prove(base.facts,subst(Nexit,{ka:N})): raise X.Failed('trip count: exit at N',show_bool(Nexit))
    ex.log('trip count exact',True)
    # ------------------------------------------------ invariant preserved (values)
    for o in lat:
        of=Facts((),o[1].facts.axioms).add(*[subst(b,mp) for b in o[1].facts.l]).add(*inK)
        if prove(of,FALSE): continue
        for key in keys:
            sc=stepcheck[key]
            if sc is None: continue
            if key[0]=='phi':
                ph=[p for p in H.phis if p.res==key[1]][0]
                v=ex.val(o[1],o[2],[v for v,b in ph.a[0] if b==o[3]][0],ph.ty,mod)
            else: v=o[1].mem[key[1]].cells[key[2]][1]
            c=closed[key]
            if sc[0]=='same':
                w=v if not isinstance(v,(Poly,Bool)) else subst(v,mp)
                if isinstance(w,X.Ptr): w=X.Ptr(w.obj,subst(w.off,mp))
                if w!=c: raise X.Failed('loop invariant preserved',str(key))
                continue
            vo=v.off if isinstance(v,X.Ptr) else v; co=c.off if isinstance(c,X.Ptr) else c
            vo=subst(vo,mp)
            if sc[0]=='lin': goal=EQ(vo,subst(co,{ka:k+1}))
            elif sc[0]=='sum': goal=EQ(vo-co,subst(sc[1],mp))
            elif sc[0]=='next': goal=EQ(vo,subst(sc[1],mp))
            if not prove(of,goal) and not X.prove_deep(of,goal): raise X.Failed('loop invariant preserved','%s: %s'%(key,show_bool(goal)))
        ex.log('loop invariant preserved (%d values)'%len(keys),True)
    # ------------------------------------------------ guards
    early=[o for o in outs if o[0] in('exit','abort','ret')]
    def residual(br):
        r=[]
        for b in br:
            b=subst(b,mp)
            if b is TRUE or prove(fk,b): continue
            r.append(b)
        return r
    res_lat=[residual(o[1].br) for o in lat]
    keep=[(o,g) for o,g in zip(lat,res_lat) if not prove(fk.add(*g),FALSE)]
    early=[o for o in early if not prove(Facts((),base.facts.axioms).add(*[subst(b,mp) for b in o[1].facts.l]).add(*inK),FALSE)]
    cont=Or(*[And(*g) for _,g in keep])
    if prove(fk,cont): cont=TRUE
    # fresh symbols introduced inside the body (skolem constants of inner loops) must not leak
    # ------------------------------------------------ effects
    lifted={b:[] for b in bufs}
    for o,g in keep:
        G=TRUE if len(keep)==1 else And(*g)
        for b in bufs:
            ch=o[1].mem[b].content.chain(hv_root[b])
            if ch is None: raise X.Unsupported('buffer content replaced in loop')
            ch=[e.sub(mp) for e in ch]
            ch=compact(ex,Facts((),o[1].facts.axioms).add(*[subst(q,mp) for q in o[1].facts.l]).add(*inK),ch,bufs[b],st.mem[b])
            for e in ch: lifted[b].append(Eff2(e,G))
    entry={b:base.mem[b].content for b in bufs}
    def unhv(x):
        # a condition on data of a buffer written by the loop: positions no earlier iteration wrote still hold their entry value
        if not isinstance(x,Bool) or not has_hv(x): return x
        m={}
        for b in bufs:
            for a in all_atoms(x):
                if a.kind!='sel' or a.args[0]!=bufs[b] or has_hv(a.args[1]): continue
                for E in lifted[b]:
                    if E.e.comp!=a.args[2]: continue
                    if has_hv(E.e.idx): raise X.Unsupported('write position depends on data written by the loop')
                    j=fresh('j'); ren={v:fresh('r') for v,_ in E.e.vs}; ren[ka]=j
                    f2=fk.add(GE(j,0),LT(j,k),*[And(GE(ren[v],0),LT(ren[v],subst(n,{ka:j}))) for v,n in E.e.vs])
                    if not prove(f2,NE(subst(E.e.idx,ren),a.args[1])): raise X.Unsupported('loop continuation depends on data written by the loop')
                m[a]=X.read_content(ex,fk,entry[b],a.args[1],a.args[2])
        return subst(x,m)
    cont=unhv(cont)
    if has_hv(cont): raise X.Unsupported('loop continuation depends on data written by the loop')
    for b in bufs:
        for E in lifted[b]:
            E.g=unhv(E.g)
            if has_hv(E.e.guard): E.e=X.Eff(E.e.kind,E.e.vs,unhv(E.e.guard),E.e.idx,E.e.comp,E.e.val)
    fam={}
    known=set(base_fv(base,regs,init))|{ka}
    for b in bufs:
        fam[b]=lift(ex,fk,lifted[b],bufs[b],entry[b],ka,k,N,base)
    ex.log('loop writes summarised (%d families)'%sum(len(x) for x in fam.values()),True,'injectivity')
    def content_at(b,bound):
        c=entry[b]
        for mk in fam[b]:
            e=mk(bound)
            if e is not None: c=X.Content(c,e)
        return c
    def all_before(bound):
        if cont is TRUE: return []
        j=fresh('j'); return [Forall([j],Implies(And(GE(j,0),LT(j,bound)),subst(cont,{ka:j})))]
    # ------------------------------------------------ obligations inside the body, early exits
    if (not ex.mute) or early:
        s2,r2=enter(base,lambda q: closed[q],lambda b,o: content_at(b,k),inK+all_before(k))
        s2.br=base.br+tuple(inK)
        for o in ex.run(f,s2,r2,L.header,None,L,skip_header=True):
            if o[0]=='latch': continue
            if o[0]=='exit' and not feasible(o[1].facts): continue
            results.append(o)
    # ------------------------------------------------ normal exit
    atN=lambda v: subst(v,{ka:N}) if isinstance(v,(Poly,Bool)) else X.Ptr(v.obj,subst(v.off,{ka:N})) if isinstance(v,X.Ptr) else v
    def simp(v):
        if isinstance(v,Poly): return norm_fold(base.facts,v)
        return v
    s3,r3=enter(base,lambda q: simp(atN(closed[q])),lambda b,o: content_at(b,N),[GE(N,0)]+all_before(N))
    s3.br=base.br
    ok=False
    for o in ex.run(f,s3,r3,L.header,None,L,skip_header=True):
        if o[0]=='latch':
            if feasible(o[1].facts): raise X.Failed('loop exits after its trip count')
            continue
        ok=True; results.append(o)
    return results
import itertools
_cnt=itertools.count()
def base_fv(st,regs,init): return ()

def placemap(place,closed,pvar):
    mp={}
    for key,p in place.items():
        if key not in closed: continue
        c=closed[key]
        if key in pvar and isinstance(c,X.Ptr):
            x,es=pvar[key]; mp[the_atom(x)]=exact_div(c.off-p.off+x*es,P(es))
        elif isinstance(p,Poly) and isinstance(c,Poly): mp[the_atom(p)]=c
    return mp

class Eff2:
    def __init__(s,e,g): s.e=e; s.g=g

def compact(ex,facts,ch,hv,buf):
    """sequential effects of one iteration -> effects with independent meaning"""
    out=[]
    for e in ch:
        if e.kind=='accum' and e.vs and not any(v in e.idx.fv for v,_ in e.vs):
            # all its variables are summed: a point update
            c=X.Content(None,None,('init',hv,'R'))
            for q in out: c=X.Content(c,q)
            old=X.read_content(ex,facts,c,e.idx,e.comp)
            d=e.val if e.guard is TRUE else Ite(e.guard,e.val,0)
            e=X.Eff('store',(),TRUE,e.idx,e.comp,old+MSum(list(e.vs),d))
        elif e.kind=='accum' and any(q.comp==e.comp for q in out):
            # a family of accumulations over positions initialised earlier in this iteration
            c=X.Content(None,None,('init',hv,'R'))
            for q in out: c=X.Content(c,q)
            iv=[(v,n) for v,n in e.vs if v in e.idx.fv]; sv=[(v,n) for v,n in e.vs if v not in e.idx.fv]
            f2=facts.add(*[And(GE(v.poly,0),LT(v.poly,n)) for v,n in iv])
            old=X.read_content(ex,f2,c,e.idx,e.comp)
            if not has_hv(old):
                d=e.val if e.guard is TRUE else Ite(e.guard,e.val,0)
                e=X.Eff('store',iv,TRUE,e.idx,e.comp,old+MSum(sv,d))
        if e.kind=='store' and e.guard is TRUE:
            def covered(q):
                if q.comp!=e.comp or q.kind!='store': return False
                if not e.vs and not q.vs: return q.idx==e.idx
                if len(q.vs)==len(e.vs) and e.vs:
                    w=X.witness(e,q.idx,facts)
                    if w is None or w[1].t: return False
                    f2=facts.add(*[And(GE(v.poly,0),LT(v.poly,n)) for v,n in q.vs])
                    mp=w[0]
                    return all(v in mp and prove(f2,And(GE(mp[v],0),LT(mp[v],n))) for v,n in e.vs)
                return False
            out=[q for q in out if not covered(q)]
        out.append(e)
    return out

def sel_coeff(val,a):
    sp=val.coeff_split(a)
    return sp

def split_ites(effs,fk,ka):
    """a write whose position is conditional becomes two guarded writes"""
    out=[]
    for E in effs:
        work=[E]
        while work:
            E=work.pop(0); it=[a for a in E.e.idx.atoms() if a.kind=='ite' and ka in a.fv and len(out)+len(work)<16]
            if not it: out.append(E); continue
            for q,v in ((it[0].args[0],it[0].args[1]),(Not(it[0].args[0]),it[0].args[2])):
                e=E.e; g=And(E.g,e.guard,q)
                if prove(fk,Not(g)): continue
                mp={it[0]:P(v)}
                work.append(Eff2(X.Eff(e.kind,e.vs,And(e.guard,q),subst(e.idx,mp),e.comp,subst(e.val,mp) if isinstance(e.val,(Poly,Bool)) else e.val),E.g))
    return out

def lift(ex,fk,effs,hv,entry,ka,k,N,base):
    """list of functions bound -> Eff (or None)"""
    out=[]; made=[]
    for E in split_ites(effs,fk,ka):
        e=E.e; g=And(E.g,e.guard)
        if has_hv(e.idx) or has_hv(g) or any(has_hv(n) for _,n in e.vs): raise X.Unsupported('write position depends on data written by the loop')
        kind=e.kind; val=e.val
        if isinstance(val,Poly) and has_hv(val):
            hs=[a for a in all_atoms(val) if a.kind=='sel' and a.args[0]==hv]
            if kind!='store' or any(a.args[1]!=e.idx or a.args[2]!=e.comp for a in hs):
                # other positions of the buffer: allowed when provably not written by earlier iterations
                kind='update'
            else:
                a=hs[0]; sp=val.coeff_split(a)
                if sp is not None and set(sp)<={0,1} and sp.get(1)==ONE and not has_hv(sp.get(0,ZERO)) :
                    kind='accum'; val=sp.get(0,ZERO)
                else: kind='update'
        elif kind=='accum' and has_hv(val): raise X.Unsupported('accumulated value depends on the buffer')
        kdep=ka in e.idx.fv or any(ka in n.fv for _,n in e.vs)
        if kind=='store' and not kdep:
            if (ka in val.fv or ka in g.fv):
                if ka in g.fv: raise X.Unsupported('guarded write to a fixed position')
                def mk(b,e=e,val=val,g=g):
                    return X.Eff('store',e.vs,And(g,GE(b,1)),e.idx,e.comp,subst(val,{ka:b-1}))
            else:
                def mk(b,e=e,val=val,g=g): return X.Eff('store',e.vs,And(g,GE(b,1)),e.idx,e.comp,val)
            out.append(mk); made.append((e,g,'fixed')); continue
        one=[v for v,n in e.vs if n==ONE]
        if one:
            e=e.sub({}); z={v:ZERO for v in one}
            e=X.Eff(e.kind,[(v,n) for v,n in e.vs if n!=ONE],subst(e.guard,z),subst(e.idx,z),e.comp,subst(e.val,z) if isinstance(e.val,(Poly,Bool)) else e.val)
            g=subst(g,z); val=subst(val,z) if isinstance(val,(Poly,Bool)) else val
        vs=[(ka,N)]+list(e.vs)
        ivs=[(v,n) for v,n in vs if v in e.idx.fv]
        boxf=fk.add(*[And(GE(v.poly,0),LT(v.poly,n)) for v,n in e.vs])
        if kind in('store','update'):
            if not injective(ivs,e.idx,boxf,g) and not (ex.mute and any(a.kind=='sel' and 'segments:'+str(a.args[0]) in fk.axioms for a in e.idx.atoms())):
                raise X.Failed('iterations write distinct positions','%s for %s'%(e.idx,ivs))
        elif kind=='accum' and (len(ivs)>1 or ka in e.idx.fv) and not injective(ivs,e.idx,boxf,g):
            mk=scatter(ex,e,g,val,ka,N,k,boxf)
            if mk is not None: out.append(mk); made.append((e,g,kind)); continue
            if __import__('os').environ.get('DBG'): print('ACC',show(e.idx),show_bool(g),[(str(v),show(n)) for v,n in ivs],[show_bool(x) for x in boxf.l[-9:]])
            raise X.Unsupported('several iterations accumulate into the same position')
        if kind=='update':
            # the old value at iteration k is the entry value (positions are written once)
            mp={}
            for a in [a for a in all_atoms(val) if a.kind=='sel' and a.args[0]==hv]:
                if a.args[1]==e.idx and a.args[2]==e.comp or len([1 for q in effs if True])==0: pass
                # not written by an earlier iteration of any family
                for E2 in effs:
                    if E2.e.comp!=a.args[2]: continue
                    j=fresh('j'); ren={v:fresh('r') for v,_ in E2.e.vs}; ren[ka]=j
                    f2=boxf.add(GE(j,0),LT(j,k),*[And(GE(ren[v],0),LT(ren[v],subst(n,{ka:j}))) for v,n in E2.e.vs])
                    if E2.e is e and a.args[1]==e.idx: continue   # injectivity
                    if not prove(f2,NE(subst(E2.e.idx,ren),a.args[1])): raise X.Unsupported('in-place update reads positions written by other iterations')
                mp[a]=X.read_content(ex,boxf,entry,a.args[1],a.args[2])
            val=subst(val,mp); kind='store'
        elif kind=='accum':
            pass
        def mk(b,e=e,val=val,g=g,kind=kind,vs=vs):
            j=the_atom(fresh('q')); ren={v:the_atom(fresh('q')) for v,_ in e.vs}
            mp={ka:j.poly}; mp.update({v:a.poly for v,a in ren.items()})
            return X.Eff(kind,[(j,b)]+[(ren[v],subst(n,mp)) for v,n in e.vs],subst(g,mp),subst(e.idx,mp),e.comp,subst(val,mp))
        out.append(mk); made.append((e,g,kind))
    # pairwise interference between different effects of the loop
    for x in range(len(made)):
        for y in range(x+1,len(made)):
            e1,g1,k1=made[x]; e2,g2,k2=made[y]
            if e1.comp!=e2.comp or (k1=='accum' and k2=='accum'): continue
            j=fresh('j')
            r1={v:fresh('r') for v,_ in e1.vs}; r2={v:fresh('r') for v,_ in e2.vs}
            m1=dict(r1); m1[ka]=k; m2=dict(r2); m2[ka]=j
            f2=fk.add(GE(j,0),LT(j,N),NE(j,k) if (k1=='accum' or k2=='accum') else LT(j,k),
                *[And(GE(r1[v],0),LT(r1[v],subst(n,m1))) for v,n in e1.vs],*[And(GE(r2[v],0),LT(r2[v],subst(n,m2))) for v,n in e2.vs],subst(g1,m1),subst(g2,m2))
            if k1=='accum' or k2=='accum': pass
            i1=subst(e1.idx,m1); i2=subst(e2.idx,m2)
            if prove(f2,NE(i1,i2)) : continue
            if X.the_same_value(e1,e2) if hasattr(X,'the_same_value') else False: continue
            if separated(e1,e2,ka,N,fk): continue
            if ex.mute and any(a.kind=='sel' and 'segments:'+str(a.args[0]) in fk.axioms for i in(i1,i2) for a in i.atoms()): continue     # exploratory round: where the positions start is not known yet
            if __import__('os').environ.get('DBG'): print('OVERLAP',show(e1.idx),[(str(v),show(n)) for v,n in e1.vs],show_bool(g1),'/',show(e2.idx),[(str(v),show(n)) for v,n in e2.vs],show_bool(g2),k1,k2,ka,ex.mute)
            raise X.Unsupported('writes of different statements overlap across iterations')
    return out

def scatter(ex,e,g,val,ka,N,k,facts):
    """accumulation at positions that depend on the iteration only through one listed number a(k) in [0,n):
    position c gets the sum over the iterations with a(k)=c"""
    for a in e.idx.atoms():
        if a.kind!='sel' or ka not in a.fv: continue
        inner=[(v,m) for v,m in e.vs if v in a.fv]; outer=[(v,m) for v,m in e.vs if v not in a.fv]      # inner: numbers listed by one iteration, summed as well
        if any(v in m.fv for v,_ in inner for _,m in e.vs): continue
        n=facts.axioms.get('bound:'+str(a.args[0]))
        if n is None: continue
        c=fresh('c'); idx=subst(e.idx,{a:c}); ca=the_atom(c)
        if ka in idx.fv or any(v in idx.fv for v,_ in inner) or any(ka in m.fv for _,m in outer) or not (ex.mute or prove(facts,Implies(g,And(GE(a.poly,0),LT(a.poly,n))))): continue
        if not injective([(v,m) for v,m in outer+[(ca,n)] if v in idx.fv],idx,facts.add(GE(c,0),LT(c,n))): continue
        def mk(b,e=e,a=a,n=n,idx=idx,ca=ca):
            cv=the_atom(fresh('q')); ren={v:the_atom(fresh('q')) for v,_ in outer}; mp={v:q.poly for v,q in ren.items()}; mp[ca]=cv.poly
            j=fresh('j'); mj=dict(mp); mj[ka]=j; iv=[(the_atom(fresh('q')),m) for _,m in inner]
            for (v,_),(w,_) in zip(inner,iv): mj[v]=w.poly
            t=Ite(subst(And(EQ(a.poly,c),g),mj),subst(val,mj),0)
            for w,m in reversed(iv): t=Sum(w.poly,subst(m,mj),t)
            s=Sum(j,b,t)
            return X.Eff('accum',[(ren[v],subst(m,mp)) for v,m in outer]+[(cv,n)],TRUE,subst(idx,mp),e.comp,s)
        return mk
    return None
def separated(e1,e2,ka,N,fk):
    return False

def product_hints(facts,polys):
    """products of two non-negative quantities are non-negative: box sizes and differences of non-decreasing sequences"""
    nn=[p for p in polys if not p.is_const() and prove(facts,GE(p,0))]
    at=set()
    for p in polys: at|=set(a for a in all_atoms(GE(p,0)) if a.kind=='sel' and facts.axioms.get('monotone:'+str(a.args[0])))
    at=sorted(at)[:8]
    for a in at:
        for b in at:
            if a is not b and a.args[0]==b.args[0]:
                d=b.poly-a.poly
                if d not in nn and prove(facts,LE(a.args[1],b.args[1])) and prove(facts,GE(d,0)): nn.append(d)
    return facts.add(*[GE(p*q,0) for i,p in enumerate(nn) for q in nn[i:]])
def ragged(ivs,idx,facts,guard):
    """outer variable v with consecutive blocks: block v fills positions L(v)..below L(v+1), L non-decreasing"""
    for v,n in ivs:
        oth=[(w,m) for w,m in ivs if w is not v]
        if any(w in n.fv for w,_ in ivs) or not oth or not any(v in m.fv for _,m in oth) and not any(v in w.fv for w,_ in oth): continue
        lp=X.linear_parts(idx,[w for w,_ in oth]) if False else None
        z={w:ZERO for w,_ in oth}; Lo=subst(idx,z); nx=subst(Lo,{v:v.poly+1})
        box=facts.add(GE(v.poly,0),LT(v.poly,n),*[And(GE(w.poly,0),LT(w.poly,m)) for w,m in oth])
        polys=[idx-Lo,nx-Lo]+[m for _,m in oth]
        # largest position of the block: inner variables to their last values, innermost first
        up=idx; rest=list(oth); ok=True
        while rest:
            pick=[(w,m) for w,m in rest if not any(w in m2.fv for w2,m2 in rest if w2 is not w)]
            pick=[t for t in pick if (lambda s: s is not None and not (set(s)-{0,1}))(up.coeff_split(t[0]))]
            if not pick: break
            w,m=pick[-1]; c=up.coeff_split(w).get(1,ZERO)
            if not prove(box,GE(c,0)) and not prove(product_hints(box,[c,m]),GE(c,0)): break
            up=subst(up,{w:m-1}); rest.remove((w,m))
        h=product_hints(box,polys+[nx-up])
        def pv(g): return prove(h,g) or X.prove_deep(h,g)
        if not pv(GE(idx-Lo,0)) or not pv(LT(up,nx)): continue
        b2=facts.add(GE(v.poly,0),LT(v.poly+1,n)); h2=product_hints(b2,[nx-Lo]+[m for _,m in oth if not any(w in m.fv for w,_ in oth)])
        if not prove(h2,GE(nx,Lo)) and not X.prove_deep(h2,GE(nx,Lo)): continue
        if injective(oth,idx,facts.add(GE(v.poly,0),LT(v.poly,n)),guard): return True
    return False
def injective(ivs,idx,facts,guard=TRUE):
    return injective0(ivs,idx,facts,guard) or len(ivs)==1 and increasing(ivs[0],idx,facts) or len(ivs)>1 and (digit(ivs,idx,facts,guard) or ragged(ivs,idx,facts,guard))
def increasing(vn,idx,facts):
    """one iteration variable reading numbers listed in increasing order within segments (axiom 'segments:<sym>' =
    (offsets,count): numbers offsets(r)..offsets(r+1)-1 increase): the whole range read must lie in one segment"""
    v,n=vn; cs=[a for a in idx.atoms() if v in a.fv]
    if len(cs)!=1 or cs[0].kind!='sel': return False
    sg=facts.axioms.get('segments:'+str(cs[0].args[0])); sp=idx.coeff_split(cs[0])
    if sg is None or sp is None or set(sp)-{0,1} or v in sp[1].fv or v in sp.get(0,ZERO).fv: return False
    g=cs[0].args[1]; gs=g.coeff_split(v)
    if gs is None or set(gs)-{0,1} or v in gs.get(0,ZERO).fv or not (gs[1].is_const() and gs[1].const()>=1): return False
    f=facts.add(GE(v.poly,0),LT(v.poly,n))
    if not (prove(f,GE(sp[1],1)) or prove(f,LE(sp[1],-1))): return False
    rows=[]
    for x in [n,idx]+[b for b in facts.l if b.k!='forall']:
        for a in sorted(all_atoms(x)):
            if a.kind=='sel' and a.args[0]==sg[0] and v not in a.fv:
                for r in(a.args[1],a.args[1]-1):
                    if r not in rows: rows.append(r)
    for r in rows[:8]:
        lo=Sel(sg[0],r,0,'I'); hi=Sel(sg[0],r+1,0,'I')
        if prove(f,And(GE(r,0),LT(r,sg[1]),LE(lo,g),LT(g,hi))): return True
    return False
def digit(ivs,idx,facts,guard):
    """position = v + n*F with v in [0,n): equal positions have equal v (the last digit), then the rest for fixed v"""
    for v,n in ivs:
        if any(w in n.fv for w,_ in ivs): continue
        r=idx-v.poly; r=r-subst_free(r,[w for w,_ in ivs])
        if not r.t or exact_div(r,n) is None: continue
        if injective([(w,m) for w,m in ivs if w is not v and w in idx.fv],idx,facts.add(GE(v.poly,0),LT(v.poly,n)),guard): return True
    return False
def subst_free(p,vs):
    return Poly({m:c for m,c in p.t.items() if not any(w in a.fv for a,_ in m for w in vs)})
def injective0(ivs,idx,facts,guard=TRUE):
    """different points of the box give different indices (mixed radix argument)"""
    if len(ivs)==1 and X.numbering(facts,idx,*ivs[0]) is not None: return True
    lp=X.linear_parts(idx,[v for v,_ in ivs])
    if lp is None:
        return injective_count(ivs,idx,facts,guard)
    co,c0=lp
    items=[]
    for v,n in ivs:
        if any(w in n.fv for w,_ in ivs): return False
        c=co[v]
        if not c.t:
            if prove(facts,LE(n,1)): continue
            return False
        if prove(facts,GE(c,0)): pass
        elif prove(facts,LE(c,0)): c=-c
        else: return False
        items.append((v,n,c))
    pos=facts.add(*[GE(n,1) for _,n,_ in items])
    def rec(rest,reach):
        if not rest: return True
        for t in sorted(rest,key=lambda t:(max([sum(e for _,e in m) for m in t[2].t]),max(abs(x) for x in t[2].t.values()))):
            v,n,c=t
            if prove(pos,LE(n,1)) or prove(pos,GE(c-reach-1,0)) or X.prove_deep(pos,GE(c-reach-1,0)):
                if rec([u for u in rest if u is not t],reach+(n-1)*c): return True
        return False
    if rec(items,ZERO): return True
    # arithmetic fallback
    ren={v:fresh('z') for v,_ in ivs}
    f2=facts.add(*[And(GE(ren[v],0),LT(ren[v],subst(n,ren)),GE(v.poly,0),LT(v.poly,n)) for v,n in ivs],EQ(idx,subst(idx,ren)))
    return prove(f2,And(*[EQ(v.poly,ren[v]) for v,_ in ivs]))
def injective_count(ivs,idx,facts,guard):
    """positions given by a running count of guarded iterations"""
    if len(ivs)!=1: return False
    v,n=ivs[0]
    # idx = c0 + Sum_{j<v} ite(g(j),1,0) and the write is guarded by g(v)
    d=subst(idx,{v:v.poly+1})-idx
    sums=[a for a in idx.atoms() if a.kind=='sum' and v in a.fv]
    if len(sums)!=1: return False
    a=sums[0]; bounds,body,names=a.args
    if len(bounds)!=1 or bounds[0]!=v.poly: return False
    if idx.coeff_split(a) is None: return False
    step=subst(body,{Var(names[0]).atoms().pop():v.poly})
    sp=idx.coeff_split(a)
    if set(sp)-{0,1} or v in sp[1].fv: return False
    r=sp.get(0,ZERO); step=sp[1]*step+subst(r,{v:v.poly+1})-r
    f2=facts.add(guard)
    return prove(facts,GE(step,0)) and prove(f2,GE(step,1))

def strip_phi(nx,phi):
    """nx = phi + d with d read off the branches of a conditional"""
    pa=the_atom(phi)
    if pa not in nx.fv: return None
    d=nx-phi
    if pa not in d.fv: return d
    a=the_atom(nx)
    if a is not None and a.kind=='ite':
        c,x,y=a.args
        if pa in c.fv: return None
        x=strip_phi(x,phi); y=strip_phi(y,phi)
        if x is not None and y is not None: return Ite(c,x,y)
    return None
def solve(phi,init,nx,k,U,key,ex,st,N=None,last=True):
    """closed form of phi_0=init, phi_{k+1}=nx ; (term, stepcheck) or None"""
    pa=the_atom(phi); ka=the_atom(k)
    if nx==phi: return init,('lin',)
    others=U-{pa}
    bad=lambda x: bool(x.fv & U) or has_hv(x)
    d=nx-phi
    if bad(d):
        d2=strip_phi(nx,phi)
        if d2 is not None and not bad(d2): d=d2
    if not bad(d):
        if ka not in d.fv: return init+k*d,('lin',)
        r=count_one(d,k,ka)
        if r is not None: return init+r,('sum',d)
        r=telescope(d,k,ka,st)
        if r is not None: return init+r,('lin',)
        j=fresh('j')
        sp=d.coeff_split(ka)
        return init+Sum(j,k,subst(d,{ka:j})),('sum',d)
    sp=nx.coeff_split(pa)
    if sp is not None and set(sp)=={1} and not bad(sp[1]):
        m=sp[1]; j=fresh('j')
        return init*prodfold(j,k,subst(m,{ka:j})),('next',nx)
    m=factor_of(nx,phi,pa)
    if m is not None and not bad(m):
        j=fresh('j'); return init*prodfold(j,k,subst(m,{ka:j})),('next',nx)
    if not bad(nx):
        c=subst(nx,{ka:k-1})
        if subst(c,{ka:ZERO})==init or prove(st.facts,EQ(subst(c,{ka:ZERO}),init)): return c,('lin',)
        import os
        if os.environ.get('DBG'): print('carried',key,show(init),'->',show(nx),'at0',show(subst(c,{ka:ZERO})),N and show(N),[show_bool(b) for b in st.facts.l[-8:]])
        raise NeedPeel('value carried from the previous iteration')
    r=last_write(phi,init,nx,k,bad)
    if r is not None: return r,('next',nx)
    a=the_atom(nx)
    if a is not None and a.kind=='ite' and pa in a.args[0].fv:
        # a counter that only moves while some condition on it holds: linear if the condition holds throughout the loop
        for c,x in((a.args[0],a.args[1]),(Not(a.args[0]),a.args[2])):
            x=P(x)
            d=x-phi
            if bad(d) or ka in d.fv: continue
            cl=init+k*d
            if N is None:
                if not last: return None
                if prove(st.facts,subst(c,{pa:init})): return cl,('lin',)     # a guess, checked with the trip count below
                continue
            f2=st.facts.add(GE(k,0),LT(k,N)); g=subst(c,{pa:cl})
            if not bad(g) and (prove(f2,g) or X.prove_deep(f2,g)): return cl,('lin',)
    r=saturating(phi,init,nx,k,a,pa,st) if last and not bad(init) else None
    if r is not None: return r,('lin',)
    if a is not None and a.kind=='div' and P(a.args[0])==phi and not bad(P(a.args[1])):
        # repeated division by positive numbers is one division by their product
        m=P(a.args[1]); f2=st.facts.add(GE(k,0),*([LT(k,N)] if N is not None else []))
        if prove(f2,GE(m,1)): j=fresh('j'); return Div(init,prodfold(j,k,subst(m,{ka:j}))),('next',nx)
    if not (nx.fv & others) and not has_hv(nx):
        j=fresh('j'); acc=fresh('acc',pa.sort)
        return Fold(init,acc,j,k,subst(nx,{pa:acc,ka:j})),('next',nx)
    return None
def saturating(phi,init,nx,k,a,pa,st):
    """x' = x<n ? x+1 : x  starting at or below n"""
    if a is None or a.kind!='ite': return None
    c,x,y=a.args
    if P(x)==phi: c,x,y=Not(c),y,x
    if P(y)!=phi or P(x)!=phi+1 or c.k!='<=': return None
    sp=c.a[0].coeff_split(pa)
    if sp is None or set(sp)-{0,1} or sp.get(1)!=ONE: return None
    n=1-sp.get(0,ZERO)           # phi + c0 <= 0  <=>  phi < 1-c0
    if pa in n.fv or has_hv(n) or not prove(st.facts,LE(init,n)): return None
    return Ite(LT(init+k,n),init+k,n)
def telescope(d,k,ka,st):
    """sum over j<k of f(j+1)-f(j)"""
    r=ZERO; rest=d; ms=[(Poly({m:c}),c) for m,c in d.t.items()]; up=[(m,c,subst(m,{ka:k+1})) for m,c in ms]
    used=set()
    for i,(m,c,u) in enumerate(up):
        if i in used or ka not in m.fv: continue
        for j,(m2,c2,_) in enumerate(up):
            if j!=i and j not in used and m2==-u:
                used|={i,j}; f0=subst(-m,{ka:ZERO}); a=X.prove(st.facts,EQ(f0,0))
                r=r-m-(ZERO if a else f0); rest=rest-m-m2; break
    if not used: return None
    if ka in rest.fv: return None
    return r+k*rest
def count_one(d,k,ka):
    """sum over j<k of a constant that differs at one single index m"""
    a=the_atom(d)
    r=None
    for at in d.atoms():
        if at.kind=='ite': a=at
    if a is None or a.kind!='ite': return None
    sp=d.coeff_split(a)
    if sp is None or set(sp)-{0,1} or sp[1].const() is None or sp.get(0,ZERO).const() is None: return None
    c,x,y=a.args
    if x.const() is None or y.const() is None: return None
    if c.k=='not': c,x,y=Not(c),y,x
    if c.k!='==': return None
    l=c.a[0].coeff_split(ka)
    if l is None or set(l)-{0,1} or not l.get(1,ZERO).is_const() or abs(l[1].const())!=1: return None
    m=-l.get(0,ZERO)*l[1].const()
    return k*(sp.get(0,ZERO)+sp[1]*y)+sp[1]*(x-y)*Ite(And(GE(m,0),GT(k,m)),ONE,ZERO)
def factor_of(nx,phi,pa):
    """nx = phi*m for a conditional m"""
    sp=nx.coeff_split(pa)
    if sp is not None and set(sp)=={1}: return sp[1]
    a=the_atom(nx)
    if a is None or a.kind!='ite': return None
    x,y=factor_of(P(a.args[1]),phi,pa),factor_of(P(a.args[2]),phi,pa)
    return None if x is None or y is None else Ite(a.args[0],x,y)
def last_write(phi,init,nx,k,bad):
    """phi_{k+1} = (k==m ? v : phi_k)"""
    a=the_atom(nx); ka=the_atom(k)
    if a is None or a.kind!='ite': return None
    c,x,y=a.args
    if y!=phi:
        if x!=phi: return None
        c,x,y=Not(c),y,x
    if bad(x): return None
    parts=list(c.a) if c.k=='and' else [c]
    eqs=[q for q in parts if q.k=='==']
    def bd(q): return bool(ka in q.fv)
    for q in eqs:
        sp=q.a[0].coeff_split(ka)
        if sp is None or set(sp)-{0,1} or not sp.get(1,ZERO).is_const() or abs(sp[1].const())!=1: continue
        m=-sp.get(0,ZERO)*sp[1].const()
        g=And(*[subst(z,{ka:m}) for z in parts if z is not q])
        if bad(m) or any(hasattr(z,'fv') and (z.fv & phi.fv) for z in parts): continue
        return Ite(And(GE(m,0),GT(k,m),g),subst(x,{ka:m}),init)
    return None
def prodfold(j,n,body):
    a=the_atom(body)
    ja=the_atom(j)
    if a is not None and a.kind=='sel' and a.sort=='I':
        sp=a.args[1].coeff_split(ja)
        if sp is not None and sp.get(1)==ONE and not set(sp)-{0,1}:
            c=sp.get(0,ZERO); return Prod(a.args[0],c,c+n)
    return PFold(j,n,body)

def norm_fold(facts,p):
    """rewrite product folds over piecewise sequences into products of segments"""
    mp={}
    for a in all_atoms(p):
        if a.kind=='pfold' and a.lvl<=0 or a.kind=='pfold' and not any(v.args[0].startswith('@') for v in a.fv):
            r=split_pfold(facts,a)
            if r is not None: mp[a]=r
    return subst(p,mp) if mp else p
def split_pfold(facts,a):
    (n,),body,(nm,)=a.args
    j=fresh('j'); b=subst(body,{Var(nm).atoms().pop():j}); ja=the_atom(j)
    b=simp_conds(facts.add(GE(j,0),LT(j,n)),b)
    cuts=[ZERO,n]
    def conds(x,out):
        for q in all_atoms(x):
            if q.kind=='ite' and ja in q.args[0].fv:
                stack=[q.args[0]]
                while stack:
                    c=stack.pop()
                    if c.k in('and','or','not'): stack+=list(c.a)
                    elif c.k in('==','<=','<'): out.append((c.k,c.a[0]))
                    else: out.append(None)
        return out
    for c in conds(b,[]):
        if c is None: return None
        kk,pp=c
        if ja not in pp.fv: continue
        sp=pp.coeff_split(ja)
        if sp is None or set(sp)-{0,1} or abs(sp.get(1,ZERO).const() or 0)!=1: return None
        r=-(sp.get(0,ZERO))*sp[1].const()
        if kk=='==': cuts+=[r,r+1]
        else: cuts+=[r+1] if sp[1].const()==1 else [r]
    if len(cuts)==2 :
        q=prodfold(j,n,b)
        return None if the_atom(q) is a else q
    out=X.sort_cuts(facts,cuts)
    if out is None: return None
    zi=X.find_eq(facts,out,ZERO); ni=X.find_eq(facts,out,n)
    if zi is None or ni is None: return None
    r=ONE
    for t in range(zi,ni):
        lo,hi=out[t],out[t+1]
        f2=facts.add(GE(j,lo),LT(j,hi))
        bb=resolve_ite(f2,b)
        ln=hi-lo
        if ln==ONE: r=r*subst(bb,{ja:lo})
        elif not ln.is_const() and prove(facts,EQ(ln,1)): r=r*subst(bb,{ja:lo})
        else:
            if ja not in bb.fv and bb==ONE: continue
            i2=fresh('j'); r=r*prodfold(i2,ln,subst(bb,{ja:lo+i2}))
    return r
def simp_conds(facts,p):
    """drops the parts of conditions that the facts decide"""
    def cond(c):
        if c.k=='and': return And(*[cond(x) for x in c.a])
        if c.k=='or': return Or(*[cond(x) for x in c.a])
        return TRUE if prove(facts,c) else FALSE if prove(facts,Not(c)) else c
    mp={}
    for a in p.atoms():
        if a.kind=='ite': mp[a]=Ite(cond(a.args[0]),simp_conds(facts,P(a.args[1])),simp_conds(facts,P(a.args[2])))
    return subst(p,mp) if mp else p
def resolve_ite(facts,p,depth=0):
    mp={}
    for a in p.atoms():
        if a.kind=='ite':
            if prove(facts,a.args[0]): mp[a]=resolve_ite(facts,a.args[1])
            elif prove(facts,Not(a.args[0])): mp[a]=resolve_ite(facts,a.args[2])
    return subst(p,mp) if mp else p

def solve_exit(c,k,ka,facts):
    """trip count from the exit condition c(k)"""
    if c.k in('==','<='):
        it=[a for a in c.a[0].atoms() if a.kind=='ite' and ka in a.fv]
        if it:
            # the condition tests a conditional value: keep the alternatives that can satisfy it
            q,x,y=it[0].args; alt=[]
            for g,v in((q,x),(Not(q),y)):
                b=subst(c,{it[0]:P(v)})
                if prove(facts.add(GE(k,0),g),Not(b)): continue
                alt.append(And(g,b))
            if len(alt)==1:
                ns=[solve_exit(b,k,ka,facts) for b in (alt[0].a if alt[0].k=='and' else [alt[0]]) if not prove(facts.add(GE(k,0)),b)]
                ns=[n for n in ns if n is not None and ka not in n.fv]
                if len(ns)==1: return ns[0]
    if c.k=='or':
        ns=[solve_exit(x,k,ka,facts) for x in c.a]
        if any(n is None or ka in n.fv for n in ns): return None
        n=ns[0]
        for m in ns[1:]:
            if prove(facts,LE(n,m)): continue
            if prove(facts,LE(m,n)): n=m; continue
            raise NeedSplit(LE(n,m))
        return n
    def lin(p):
        sp=p.coeff_split(ka)
        if sp is None or set(sp)-{0,1} or 1 not in sp: return None
        return sp.get(0,ZERO),sp[1]
    if c.k=='==':
        l=lin(c.a[0])
        if l is None: return None
        return exact_div(-l[0],l[1])
    if c.k=='<=':
        l=lin(c.a[0])
        if l is None: return None
        c0,c1=l; s=-c1
        if s.is_const() and s.const()>0:
            if s.const()==1: return c0
            q=exact_div(c0,s)
            return q if q is not None else Div(c0+s-1,s)
        if s.is_const(): return None
        q=exact_div(c0,s)
        if q is not None: return q
        q=exact_div(c0-1+s,s)
        return Div(c0+s-1,s)
    return None
def exit_at(*a): pass
