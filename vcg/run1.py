"""development helper: run the contracts of one property, or those matching a pattern"""
import sys,os,re,time,importlib.util,traceback
sys.path.insert(0,os.path.dirname(os.path.abspath(__file__))); 
import build_ir, spec as S, prover
from symexec import *
LAX={'C11','C13','C25','C27'}      # sizes given to BLAS/LAPACK/FFTW (and diag) are int: assumed to fit; everywhere else narrowing must be shown harmless
def load(prop):
    import symexec; symexec.STRICT_TRUNC=prop not in LAX
    p=os.path.join(build_ir.VERIF,'specs',prop.lower()+'.py')
    sp=importlib.util.spec_from_file_location(prop,p); m=importlib.util.module_from_spec(sp); sp.loader.exec_module(m); return m
SUPPORT=['tensor/tensor_d.cc','tensor/tensor_z.cc','indices/indices.cc','tensor/tensor_reshape_d.cc','tensor/tensor_reshape_z.cc']
def tu_path(t): return os.path.join(build_ir.VERIF,'vcg/inst',t[1:]+'.cc') if t[0]=='@' else t
def program(tus):
    return Program(build_ir.compile_all([tu_path(t) for t in dict.fromkeys(tus+SUPPORT)]),lambda: build_ir.compile_all(build_ir.all_tus()))
def run_one(prog,e):
    p,nm,f,kw,tus=e
    c=S.Ctx(prog,nm,getattr(f,'prims',[]),getattr(f,'bodies',None)); t=time.time(); err=None
    try: f(c,**kw)
    except (Unsupported,Failed) as x: err=x
    except Exception as x: err=x; x.tb=traceback.format_exc()
    return c,err,time.time()-t
def worker(prog,e):
    c,err,t=run_one(prog,e)
    return '%-60s %5.1fs obl %d  ret %d abort %d loops %d  %s'%(e[1],t,len(c.ex.obl),c.nret,c.nabort,c.ex.loops,'OK' if err is None and all(x.ok for x in c.ex.obl) else 'UNDISCHARGED FAIL %r'%[x.name for x in c.ex.obl if not x.ok][:3] if err is None else 'FAIL '+type(err).__name__+' '+str(err)[:1500])+('\n'+err.tb[-500:] if hasattr(err,'tb') else '')+('\n'+''.join(traceback.format_exception(err)) if err is not None and os.environ.get('TB') else '')
if __name__=='__main__':
    m=load(sys.argv[1]); pat=sys.argv[2] if len(sys.argv)>2 else ''
    prog=program(m.TUS); t0=time.time()
    todo=[e for e in S.REG if not pat or re.search(pat,e[1])]
    if len(todo)<3:
        for e in todo: print(worker(prog,e))
        print(prover.STATS.n,prover.STATS.queries)
    else:
        import multiprocessing as mp
        ctx=mp.get_context('fork'); G={'prog':prog}
        def go(i): return worker(prog,todo[i])
        globals()['go']=go
        with ctx.Pool(8) as p:
            res=p.map(go,range(len(todo)),chunksize=1)
        bad=[r for r in res if ' OK' not in r[:140]]
        for r in (bad if len(res)>12 else res): print(r)
        print('%d contracts, %d failed, %.1fs'%(len(res),len(bad),time.time()-t0))
