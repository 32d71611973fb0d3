#!/usr/bin/env python3-vt
"""check.py <property>: decides one property on /repo's current tree.
 1. every contract of the property (specs/<id>.py) is verified deductively against LLVM IR generated from /repo's sources;
 2. the executable form of the contracts (replay/<id>.cc) is run on the library compiled from the same sources: it supplies the
    concrete failing input of a failed obligation, and is a bounded stand-in for the functions listed as not under proof.
Exit 0: every obligation discharged and no failing input; exit 1 with a VIOLATION line otherwise."""
import sys,os,re,time,json,threading,traceback,signal,resource,multiprocessing as mp
VERIF=os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0,os.path.join(VERIF,'vcg'))
import build_ir,harness
LIMIT={'quick':150,'thorough':600}     # processor seconds per contract
WHOLE={'quick':450,'thorough':7200}    # seconds for all contracts of a property: a contract not decided by then counts as not accepted
START=time.time()
def alarm(sig,frm): raise TimeoutError('no answer within the time limit')
def go(i):
    import run1,prover,spec as S
    from symexec import Unsupported,Failed,demangle
    e=TODO[i]; signal.signal(signal.SIGALRM,alarm); signal.signal(signal.SIGPROF,alarm); signal.alarm(int(max(1,min(4*LIMIT[TIER],START+WHOLE[TIER]-time.time())))); signal.setitimer(signal.ITIMER_PROF,LIMIT[TIER])
    prover.STATS.__init__(); t=time.time(); r={'name':e[1],'error':None}; c=S.Ctx(PROG,e[1],getattr(e[2],'prims',[]),getattr(e[2],'bodies',None))
    try: e[2](c,**e[3])
    except (Unsupported,Failed) as x: r['error']='%s: %s'%(type(x).__name__,str(x)[:6000])
    except TimeoutError as x: r['error']='Timeout: %s'%x
    except RecursionError: r['error']='RecursionError'
    except Exception as x: r['error']='Internal: %s %s'%(x,traceback.format_exc()[-1500:])
    finally: signal.setitimer(signal.ITIMER_PROF,0); signal.alarm(0)
    o=c.ex.obl; dm=lambda l: sorted(set(re.sub(r'\s+',' ',demangle(n)) for n in l))
    bo={}
    for x in o: bo[x.name]=bo.get(x.name,0)+1
    r.update(obl=len(o),ok=sum(1 for x in o if x.ok),by=bo,back=dict(prover.STATS.n),queries=prover.STATS.queries,solver_s=prover.STATS.t,t=time.time()-t,funs=dm(c.ex.inlined),used=dm(c.ex.used_contracts),loops=c.ex.loops,ret=c.nret,abort=c.nabort)
    if not r['error'] and (r['obl']==0 or r['ok']!=r['obl']): r['error']='vacuous or undischarged: %d of %d'%(r['ok'],r['obl'])
    return r
def proofs(prop):
    global TODO,PROG
    import run1,spec as S
    sp=os.path.join(VERIF,'specs',prop.lower()+'.py')
    if not os.path.exists(sp): return [],None
    try:
        m=run1.load(prop); TODO=[e for e in S.REG if e[0]==prop]
        PROG=run1.program(m.TUS)
    except Exception as x:
        return [],'%s'%(str(x)[:3000])
    ctx=mp.get_context('fork'); res={}
    jobs=min(8,os.cpu_count() or 4)
    from concurrent.futures import ProcessPoolExecutor
    left=list(range(len(TODO)))
    for attempt in range(2):
        try:
            with ProcessPoolExecutor(jobs if attempt==0 else 1,mp_context=ctx) as p:
                fs={i:p.submit(go,i) for i in left}
                for i,f in fs.items():
                    try: res[i]=f.result()
                    except Exception as x:
                        if attempt==1: res[i]={'name':TODO[i][1],'error':'worker died: %s'%x,'obl':0,'ok':0}
        except Exception: pass
        left=[i for i in left if i not in res]
        if not left: break
    for i in left: res[i]={'name':TODO[i][1],'error':'worker died','obl':0,'ok':0}
    return [res[i] for i in range(len(TODO))],None
def main():
    global TIER
    prop=sys.argv[1].upper(); TIER=os.environ.get('VERIF_TIER','quick'); TIER=TIER if TIER in LIMIT else 'quick'; seed=int(os.environ.get('VERIF_SEED','1') or 1)
    t0=time.time(); H={}
    import config_props as CP
    meta=CP.PROPS[prop]
    ir_err=None
    build_ir.prune(); harness.prune()
    res,ir_err=proofs(prop)
    tp=time.time()-t0
    if harness.have(prop): H=harness.run(prop,seed,TIER,300 if TIER=='quick' else 3000)
    known=[l for l in json.load(open(os.path.join(VERIF,'known_findings.json')))['findings'] if l['property']==prop]
    kc={c for k in known for c in k.get('contracts',[])}; kk={c for k in known for c in k.get('keys',[])}
    hf=[f for f in H.get('fails',[]) if f[0] not in kk]
    pf=[r for r in res if r['error'] and r['name'] not in kc]
    for k in known:
        print('KNOWN-FINDING: property=%s %s'%(prop,k['what']))
    errs=[]
    if ir_err: errs.append('the functions under contract could not be turned into obligations: '+ir_err)
    if H.get('error'): errs.append('executable contracts: '+H['error'])
    viol=bool(hf or pf or errs)
    ev=os.path.join(VERIF,'evidence'); os.makedirs(ev,exist_ok=True)
    nobl=sum(r.get('obl',0) for r in res); nok=sum(r.get('ok',0) for r in res)
    if not viol and res and (nobl==0 or len(res)<meta.get('min_contracts',1)): pf=[{'name':'coverage guard','error':'only %d contracts'%len(res)}]; viol=True
    back={}; funs=set(); used=set()
    for r in res:
        for k,v in r.get('back',{}).items(): back[k]=back.get(k,0)+v
        funs|=set(r.get('funs',[])); used|=set(r.get('used',[]))
    cov={'contracts':len(res),'contracts_accepted':sum(1 for r in res if not r['error']),'obligations':nobl,'discharged':nok,
      'checker_cmd':'cd /verif && VERIF_TIER=%s VERIF_SEED=%d python3-vt check.py %s'%(TIER,seed,prop),
      'trusted_base':CP.TRUST+meta.get('trust',[]),'back_ends':back,'solver_queries':sum(r.get('queries',0) for r in res),'solver_seconds':round(sum(r.get('solver_s',0) for r in res),2),
      'loops_with_inductive_invariant':sum(r.get('loops',0) for r in res),
      'functions_verified_as_written':sorted(funs),'contracts_used_at_call_sites':sorted(used),
      'contract_list':[{'contract':r['name'],'obligations':r.get('obl',0),'returns':r.get('ret',0),'aborts':r.get('abort',0),'seconds':round(r.get('t',0),2),'accepted':not r['error']} for r in res],
      'bounded_stand_in':{'label':'BOUNDED, not counted as proved','what':meta.get('bounded',''),'only_bounded':meta.get('only_bounded',[]),'evaluations':H.get('evaluations',0),'distinct_nontrivial':H.get('distinct',0),'samples':H.get('samples',[])},
      'evaluations':H.get('evaluations',0),'distinct_nontrivial':H.get('distinct',0),'rule':'executable contracts: every shape up to the stated size plus seeded random ones; distinct by printed input','samples':H.get('samples',[]) or [r['name'] for r in res[:5]],
      'known_findings':[k['what'] for k in known]}
    replay=os.path.join(ev,prop+'.replay.txt')
    if viol:
        with open(replay,'w') as f:
            f.write('property %s: %s\n\n'%(prop,meta['title']))
            if hf:
                f.write('CONCRETE FAILING INPUTS on the library compiled from /repo (obligation: input -> observed, contract):\n')
                for k,t in hf: f.write('  obligation %s: %s\n'%(k,t))
                f.write('  reproduce: cd /verif && VERIF_SEED=%d VERIF_TIER=%s python3-vt vcg/harness.py %s\n\n'%(seed,TIER,prop))
                if not H.get('complete'): f.write(H.get('stderr','')+'\n')
            if pf:
                f.write('OBLIGATIONS NOT ACCEPTED BY THE VERIFIER:\n')
                for r in pf: f.write('  contract %s\n    %s\n'%(r['name'],r['error']))
            for e in errs: f.write(e+'\n')
    elif os.path.exists(replay): os.unlink(replay)
    json.dump({'property':prop,'tier':TIER,'seed':seed,'level':meta['level'],'coverage':cov,
      'assumptions':CP.ASSUME+meta.get('assume',[]),'wall_s':round(time.time()-t0,2),'violations':(len(hf)+len(pf)+len(errs))},open(os.path.join(ev,prop+'.json'),'w'),indent=1)
    print('%s: %d contracts, %d/%d obligations discharged in %.1fs; executable contracts: %d evaluations (build %.0fs, run %.0fs)'%(prop,len(res),nok,nobl,tp,H.get('evaluations',0),H.get('build_s',0),H.get('run_s',0)))
    if viol:
        for k,t in hf[:5]: print('  failing input [%s] %s'%(k,t[:400]))
        for r in pf[:5]: print('  obligation not accepted [%s] %s'%(r['name'],r['error'][:400]))
        for e in errs: print('  '+e[:800])
        print('VIOLATION property=%s replay=%s%s'%(prop,replay,'' if hf else ' no-failing-input-found'))
        sys.exit(1)
    sys.exit(0)
if __name__=='__main__':
    try: main()
    except SystemExit: raise
    except BaseException as x:
        traceback.print_exc()
        p=sys.argv[1].upper() if len(sys.argv)>1 else '?'
        rp=os.path.join(VERIF,'evidence',p+'.replay.txt')
        os.makedirs(os.path.dirname(rp),exist_ok=True); open(rp,'w').write('verifier failure: no obligation could be discharged\n'+traceback.format_exc())
        print('VIOLATION property=%s replay=%s no-failing-input-found'%(p,rp)); sys.exit(1)
