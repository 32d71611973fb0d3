"""Compiles translation units of /repo to LLVM IR (the text that is verified) on every run."""
import os, sys, subprocess, hashlib, concurrent.futures as cf
REPO=os.environ.get('VERIF_REPO','/repo')
VERIF=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CACHE=os.environ.get('VERIF_CACHE',os.path.join(VERIF,'.cache'))
CLANG='clang++-18'; OPT='opt-18'
CFLAGS=['-std=c++14','-O1','-Xclang','-disable-llvm-passes','-fno-exceptions','-fno-discard-value-names','-w','-S','-emit-llvm']
PASSES='function(sroa,early-cse,simplifycfg,instsimplify,loop-simplify,lcssa)'
_tree=None
def tree_files():
    out=[]
    for d in('include','src'):
        for r,_,fs in os.walk(os.path.join(REPO,d)):
            for f in fs:
                if f.endswith(('.h','.hpp','.cc','.c','.cpp','.inc')): out.append(os.path.join(r,f))
    return sorted(out)
def tree_hash():
    """hash of every header and source of the working tree: any edit invalidates the cache"""
    global _tree
    if _tree is None:
        h=hashlib.sha256()
        h.update(repr((CFLAGS,PASSES,2)).encode())
        for f in tree_files():
            h.update(f[len(REPO):].encode()); h.update(open(f,'rb').read())
        _tree=h.hexdigest()[:20]
    return _tree
def incs():
    return ['-I'+os.path.join(REPO,'include'),'-I'+os.path.join(VERIF,'vcg','config'),'-I'+os.path.join(REPO,'src')]
def compile_one(tu):
    d=os.path.join(CACHE,'ir',tree_hash()); os.makedirs(d,exist_ok=True)
    src=tu if tu.startswith('/') else os.path.join(REPO,'src',tu)
    tag=hashlib.sha256(open(src,'rb').read()).hexdigest()[:8] if tu.startswith('/') else ''
    out=os.path.join(d,tu.replace('/','_')+tag+'.ll')
    if os.path.exists(out): return out
    tmp=out+'.%d.tmp'%os.getpid()
    r=subprocess.run([CLANG]+CFLAGS+incs()+[src,'-o',tmp],capture_output=True,text=True)
    if r.returncode: raise RuntimeError('clang failed on %s:\n%s'%(tu,r.stderr[-3000:]))
    r=subprocess.run([OPT,'-S','-passes='+PASSES,tmp,'-o',tmp+'2'],capture_output=True,text=True)
    if r.returncode: raise RuntimeError('opt failed on %s:\n%s'%(tu,r.stderr[-3000:]))
    os.unlink(tmp); os.rename(tmp+'2',out)
    return out
def compile_all(tus):
    import fcntl
    os.makedirs(CACHE,exist_ok=True)
    with open(os.path.join(CACHE,'lock'),'w') as l:     # one build at a time: the workers of a check share its results
        fcntl.flock(l,fcntl.LOCK_EX)
        with cf.ThreadPoolExecutor(8) as ex: return list(ex.map(compile_one,tus))
def prune():
    """keep only the current tree's IR"""
    base=os.path.join(CACHE,'ir')
    if os.path.isdir(base):
        for d in os.listdir(base):
            if d!=tree_hash():
                subprocess.run(['rm','-rf',os.path.join(base,d)],stderr=subprocess.DEVNULL)
def all_tus():
    import re
    txt=open(os.path.join(REPO,'src/Makefile.inc')).read()
    tus=sorted(set(re.findall(r'[\w/]+\.cc',txt)))
    return [t for t in tus if t!='rand/rand32.cc' and os.path.exists(os.path.join(REPO,'src',t))]
if __name__=='__main__':
    tus=all_tus(); compile_all(tus); print(len(tus)); sys.exit()
