"""Compiles /repo's current library sources and the executable contracts of one property, and runs them."""
import os,sys,subprocess,concurrent.futures as cf,re,time
import build_ir as B
FL=['-std=c++14','-O1','-g1','-fsanitize=address','-w']
LIBS=['-lopenblas','-lfftw3','-lgfortran','-lm','-ldl','-lpthread']
def src(prop): return os.path.join(B.VERIF,'replay',prop.lower()+'.cc')
def have(prop): return os.path.exists(src(prop))
def sh(cmd): return subprocess.run(cmd,capture_output=True,text=True)
def build(prop,jobs=8):
    """returns (exe, error)"""
    d=os.path.join(B.CACHE,'lib',B.tree_hash()); os.makedirs(d,exist_ok=True)
    lib=os.path.join(d,'libtensor.a')
    exe=os.path.join(d,prop.lower())
    def one(t):
        o=os.path.join(d,t.replace('/','_')+'.o')
        if os.path.exists(o): return None
        r=sh(['clang++-18']+FL+B.incs()+['-c',os.path.join(B.REPO,'src',t),'-o',o+'.tmp.o'])
        if r.returncode: return r.stderr[:3000]
        os.rename(o+'.tmp.o',o)
    h=exe+'.main.o'
    def main(_):
        r=sh(['clang++-18']+FL+B.incs()+['-I'+os.path.join(B.VERIF,'replay'),'-c',src(prop),'-o',h])
        return r.stderr[:3000] if r.returncode else None
    tus=B.all_tus()
    with cf.ThreadPoolExecutor(jobs) as ex:
        fs=[ex.submit(main,0)]+([] if os.path.exists(lib) else [ex.submit(one,t) for t in tus])
        es=[f.result() for f in fs]
    es=[e for e in es if e]
    if es: return None,es[0]
    if not os.path.exists(lib):
        tmp=lib+'.%d.a'%os.getpid()
        r=sh(['ar','rcs',tmp]+[os.path.join(d,t.replace('/','_')+'.o') for t in tus])
        if r.returncode: return None,r.stderr
        os.rename(tmp,lib)
    r=sh(['clang++-18']+FL+['-rdynamic',h,'-o',exe,lib]+LIBS)
    if r.returncode: return None,r.stderr[:3000]
    return exe,None
def prune():
    base=os.path.join(B.CACHE,'lib')
    if os.path.isdir(base):
        for d in os.listdir(base):
            if d!=B.tree_hash(): subprocess.run(['rm','-rf',os.path.join(base,d)])
def run(prop,seed,tier,timeout=400):
    """returns dict: fails [(key,text)], evaluations, distinct, samples, output, error"""
    t=time.time(); exe,err=build(prop); tb=time.time()-t
    if err: return {'error':'build: '+err,'fails':[],'build_s':tb}
    t=time.time(); env=dict(os.environ,OPENBLAS_NUM_THREADS='1',OMP_NUM_THREADS='1')
    import tempfile,shutil
    wd=tempfile.mkdtemp(prefix='replay-')
    try:
        p=subprocess.run([exe,str(seed),tier],capture_output=True,timeout=timeout,env=env,cwd=wd)
        out=p.stdout.decode('utf8','replace'); er=p.stderr.decode('utf8','replace'); rc=p.returncode
    except subprocess.TimeoutExpired as x:
        out=(x.stdout or b'').decode('utf8','replace')+'\nFAIL timeout: the executable contracts did not finish in %d s\n'%timeout; er=''; rc=-1
    finally: shutil.rmtree(wd,ignore_errors=True)
    fails=[(m.group(1),m.group(2)) for m in re.finditer(r'(?m)^FAIL ([^:\n]+): (.*)$',out)]
    m=re.search(r'DONE evaluations=(\d+) distinct=(\d+) failures=(\d+)',out)
    if not m and not fails: fails=[('crash','executable contracts ended with status %s: %s'%(rc,(out[-500:]+er[-1500:]).replace('\n',' | ')))]
    return {'fails':fails,'evaluations':int(m.group(1)) if m else 0,'distinct':int(m.group(2)) if m else 0,'complete':bool(m),
            'samples':re.findall(r'(?m)^SAMPLE (.*)$',out),'stderr':er[-4000:],'cmd':'%s %s %s'%(exe,seed,tier),'build_s':tb,'run_s':time.time()-t,'error':None}
if __name__=='__main__':
    r=run(sys.argv[1].upper(),int(os.environ.get('VERIF_SEED','1')),os.environ.get('VERIF_TIER','quick'))
    if r.get('error'): print(r['error'])
    for k,t in r['fails'][:40]: print('FAIL',k,':',t[:400])
    if r['fails'] and not r.get('complete'): print(r['stderr'][:2500])
    print({k:v for k,v in r.items() if k in('evaluations','distinct','build_s','run_s','samples')})
