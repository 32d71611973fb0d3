"""mkseed.py FILE: (re)creates planted changes from a description file (python: S(id,prop,edits,demo,needs,breaks))"""
import os,sys,subprocess,json,shutil
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH='''#!/bin/bash
# exit 0 when the library behaves as stated; run in /repo after the build
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
g++ -std=c++14 -g -O1 -w -Iinclude -I_build/include "$D/demo.cc" -o "$T/demo" _build/src/.libs/libtensor.a -lopenblas -lfftw3 -lgfortran || exit 2
cd "$T" && timeout 100 ./demo
'''
PRE='''#include <tensor/tensor.h>
#include <tensor/sparse.h>
#include <cstdio>
#include <cstdlib>
#include <iostream>
#include <unistd.h>
#include <sys/wait.h>
using namespace tensor;
#define CHECK(c) do{ if(!(c)){ printf("wrong: %s (line %d)\\n",#c,__LINE__); return 1; } }while(0)
'''
def S(id,prop,edits,demo,needs,breaks,pre=PRE):
    d=os.path.join(V,'seeded',id); shutil.rmtree(d,ignore_errors=True); os.makedirs(d)
    t='/tmp/mkseed.%d'%os.getpid(); shutil.rmtree(t,ignore_errors=True); diff=''
    for f,old,new in edits:
        for side in 'ab':
            p=os.path.join(t,side,f); os.makedirs(os.path.dirname(p),exist_ok=True)
            if not os.path.exists(p): shutil.copy(os.path.join(os.environ.get('VERIF_REPO','/repo'),f),p)
        p=os.path.join(t,'b',f); s=open(p).read()
        assert s.count(old)==1,(id,f,s.count(old),old)
        open(p,'w').write(s.replace(old,new))
    r=subprocess.run(['diff','-ru','a','b'],cwd=t,capture_output=True,text=True)
    out=[]
    for l in r.stdout.splitlines(True):
        if l.startswith('diff '): 
            f=l.split()[-1][2:]; out.append('diff --git a/%s b/%s\n'%(f,f)); continue
        if l.startswith('--- ') or l.startswith('+++ '): l=l.split('\t')[0]+'\n'
        out.append(l)
    open(os.path.join(d,'patch.diff'),'w').write(''.join(out)); shutil.rmtree(t)
    open(os.path.join(d,'demo.cc'),'w').write(pre+'int main(){\n'+demo.strip()+'\nreturn 0; }\n')
    open(os.path.join(d,'demo.sh'),'w').write(SH); os.chmod(os.path.join(d,'demo.sh'),0o755)
    json.dump({'property':prop,'needs':needs,'what_it_breaks':breaks},open(os.path.join(d,'meta.json'),'w'),indent=1)
    print(id)
if __name__=='__main__': exec(open(sys.argv[1]).read())
