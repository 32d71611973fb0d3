"""Symbolic executor / verification condition generator for LLVM IR with loop summarisation.

A loop is never unrolled to a bound: its invariant is synthesised (closed forms for every
loop-carried value and a family of writes for every buffer), and the invariant is then
checked: initiation, preservation at a symbolic iteration, and exit.  Whatever cannot be
established raises Failed (a named obligation that the verifier did not accept).
"""
import re, sys, subprocess
from terms import *
import prover
from prover import Facts, prove, feasible, z3_check
STRICT_TRUNC=False    # narrowing conversions of integers keep the value only when it provably fits (otherwise assumed to fit)
from irparse import Module, find_loops, IRError
sys.setrecursionlimit(20000)

class Unsupported(Exception): pass
class Failed(Exception):
    def __init__(s,name,detail=''): Exception.__init__(s,'%s: %s'%(name,detail)); s.name=name; s.detail=detail

class Ptr:
    __slots__=('obj','off')
    def __init__(s,obj,off): s.obj=obj; s.off=P(off)
    def __repr__(s): return 'Ptr(%s,%s)'%(s.obj,s.off)
    def __eq__(s,o): return isinstance(o,Ptr) and s.obj==o.obj and s.off==o.off
    def __hash__(s): return hash((s.obj,s.off))
NULL=Ptr(None,0)
class Fn:
    def __init__(s,name): s.name=name
    def __eq__(s,o): return isinstance(o,Fn) and o.name==s.name
    def __hash__(s): return hash(s.name)
class _Undef:
    def __repr__(s): return 'undef'
UNDEF=_Undef()
class Agg(list): pass

class Eff:
    __slots__=('kind','vs','guard','idx','comp','val')
    def __init__(s,kind,vs,guard,idx,comp,val): s.kind=kind; s.vs=tuple(vs); s.guard=guard; s.idx=idx; s.comp=comp; s.val=val
    def __repr__(s): return '%s[%s].%s := %s for %s if %s'%('' if s.kind=='store' else '+',s.idx,s.comp,s.val,','.join('%s<%s'%(v,n) for v,n in s.vs),s.guard)
    def sub(s,mp):
        m={a:p for a,p in mp.items() if all(a is not v for v,_ in s.vs)}
        return Eff(s.kind,[(v,subst(n,m)) for v,n in s.vs],subst(s.guard,m),subst(s.idx,m),s.comp,subst(s.val,m) if isinstance(s.val,(Poly,Bool)) else s.val)
class Content:
    __slots__=('parent','eff','base')
    def __init__(s,parent,eff,base=None): s.parent=parent; s.eff=eff; s.base=base
    def chain(s,stop=None):
        o=[]; c=s
        while c is not stop and c.parent is not None: o.append(c.eff); c=c.parent
        if stop is not None and c is not stop: return None
        return o[::-1]
    def root(s):
        c=s
        while c.parent is not None: c=c.parent
        return c
def init_content(sym,sort): return Content(None,None,('init',sym,sort))
def undef_content(): return Content(None,None,('undef',))
def const_content(v): return Content(None,None,('const',P(v)))
def lam_content(f): return Content(None,None,('lam',f))

class Buf:
    __slots__=('id','esz','kind','n','content','owners','external','freed','ro','raw')
    def __init__(s,id,esz,kind,n,content,owners=1,external=False,ro=False,raw=None):
        s.id=id; s.esz=esz; s.kind=kind; s.n=P(n); s.content=content; s.owners=owners; s.external=external; s.freed=False; s.ro=ro; s.raw=raw
    def copy(s):
        b=Buf(s.id,s.esz,s.kind,s.n,s.content,s.owners,s.external,s.ro,s.raw); b.freed=s.freed; return b
class Cells:
    __slots__=('id','cells','abs','size','kind','freed')
    def __init__(s,id,size,kind): s.id=id; s.cells={}; s.abs={}; s.size=size; s.kind=kind; s.freed=False
    def copy(s):
        c=Cells(s.id,s.size,s.kind); c.cells=dict(s.cells); c.abs=dict(s.abs); c.freed=s.freed; return c
class AbsRef:
    __slots__=('buf',)
    def __init__(s,buf): s.buf=buf
    def __eq__(s,o): return isinstance(o,AbsRef) and s.buf==o.buf
    def __hash__(s): return hash(s.buf)

ESZ={'double':8,'cdouble':16,'long':8,'bool':1,'int':4,'char':1,'float':4}
def comps_of(kind): return (0,8) if kind=='cdouble' else (0,)
def sort_of(kind): return 'R' if kind in('double','cdouble','float') else 'I'

class State:
    __slots__=('mem','facts','br','notes','frames')
    def __init__(s): s.mem={}; s.facts=Facts(); s.br=(); s.notes=(); s.frames=()
    def copy(s):
        t=State(); t.mem=dict(s.mem); t.facts=s.facts; t.br=s.br; t.notes=s.notes; t.frames=s.frames; return t
    def w(s,oid):
        """writable copy of an object"""
        o=s.mem[oid].copy(); s.mem[oid]=o; return o
    def assume(s,*b): s.facts=s.facts.add(*b)

class Obligation:
    def __init__(s,fn,name,ok,how,detail=''): s.fn=fn; s.name=name; s.ok=ok; s.how=how; s.detail=detail

_ids=[0]
def newid(p):
    _ids[0]+=1; return '%s!%d'%(p,_ids[0])

_dem={}
def demangle_many(names):
    todo=[n for n in names if n not in _dem]
    if todo:
        r=subprocess.run(['c++filt'],input='\n'.join(todo),capture_output=True,text=True).stdout.split('\n')
        for a,b in zip(todo,r): _dem[a]=b
def demangle(n):
    if n not in _dem: demangle_many([n])
    return _dem[n]

class Program:
    """functions of a set of IR modules"""
    def __init__(s,paths,more=None):
        s.mods=[]; s.where={}; s.by_dem={}; s.more=more; s.paths=set(); s.index=None; s.loaded=set()
        s.add(paths)
    def add(s,paths):
        new=[Module(p) for p in paths if p not in s.paths]; s.paths|=set(paths); s.mods+=new
        demangle_many([n for m in new for n in m.defs]+[d for m in new for d in m.decls])
        for m in new:
            for n in m.defs:
                if n not in s.where:
                    s.where[n]=m; s.by_dem.setdefault(demangle(n),[]).append(n)
    def load_for(s,name):
        """loads the module that defines a function (a changed body may call something new)"""
        if s.more is None: return False
        if s.index is None:
            s.index={}
            for p in s.more():
                for m in re.finditer(r'(?m)^define [^@\n]*@("[^"]+"|[\w.$]+)\(',open(p).read()): s.index.setdefault(m.group(1).strip('"'),p)
        p=s.index.get(name) or s.index.get(name.replace('C1','C2',1)) or s.index.get(name.replace('D1','D2',1))
        if p is None or p in s.loaded: return False
        s.loaded.add(p); s.add([p]); return True
    def load_all(s):
        if s.more is not None:
            f=s.more; s.more=None; s.add(f()); return True
        return False
    def global_table(s,name,mod):
        if name.startswith('opaque:'):
            t=s.global_table(name[7:],mod); return t and [x if x is None or '_ZTI' in x else 'opaque!'+x for x in t]
        for m in [mod]+s.mods:
            g=m.globals.get(name)
            if g is None or 'external' in g.split('{')[0].split(): continue
            mm=re.search(r'constant \{ \[\d+ x ptr\] \} \{ \[\d+ x ptr\] \[(.*?)\] \}',g)
            if mm: return [None if x.strip()=='ptr null' else re.match(r'ptr @("?)(.+)\1$',x.strip()).group(2) for x in mm.group(1).split(', ')]
        if name.startswith('_ZTV') and s.more is not None:
            for p in s.more():
                if p not in s.paths and ('@'+name+' = dso_local unnamed_addr constant') in open(p).read(): s.add([p]); return s.global_table(name,mod)
        return None
    def func(s,n):
        m=s.where.get(n)
        return m.function(n) if m else None
    def find(s,pat):
        """mangled names whose demangled name matches the regex fully"""
        r=re.compile(pat)
        return [n for d,ns in s.by_dem.items() if r.fullmatch(d) for n in ns]

ALIASES={'C1':'C2','D1':'D2'}
class Exec:
    def __init__(s,prog,prims,contracts=None,fn='?'):
        s.prog=prog; s.prims=prims; s.contracts=contracts or {}
        s.mute=0; s.obl=[]; s.fn=fn; s.depth=0; s.inlined=set(); s.used_contracts=set(); s.loops=0
        s.trusted=set(); s.summaries=[]; s.calls=[]; s.primcache={}
        s.noinline=set()
    # ------------------------------------------------------------ obligations
    def log(s,name,ok,how='z3',detail=''):
        if s.mute: return
        s.obl.append(Obligation(s.fn,name,ok,how,detail))
    def require(s,st,goal,name,timeout=None):
        """an obligation: must hold here"""
        if s.mute: return
        if goal is TRUE: s.log(name,True,'trivial'); return
        if prove(st.facts,goal,timeout) or s.prove2(st,goal): s.log(name,True); return
        s.log(name,False,'',show_bool(goal))
        raise Failed(name,'%s  under  %s'%(show_bool(goal)[:600],'; '.join(show_bool(f) for f in st.facts.l[-14:])[:1500])+' [%s]'%prover.LAST['reason'])
    def prove2(s,st,goal):
        """second attempt after splitting dimension products at the known cut points and using unit facts"""
        return prove_deep(st.facts,goal)
    def holds(s,st,c): return prove(st.facts,c)
    # ------------------------------------------------------------ values
    def val(s,st,regs,v,ty,mod=None):
        k=v[0]
        if k=='reg':
            if v[1] not in regs: raise Unsupported('register %s'%v[1])
            return regs[v[1]]
        if k=='int':
            if ty[0]=='i' and ty[1]==1: return TRUE if v[1] else FALSE
            return P(v[1])
        if k=='bool': return TRUE if v[1] else FALSE
        if k=='fp': return P(v[1])
        if k=='fpx': return App('fp:'+v[1])
        if k=='null': return NULL
        if k=='undef': return UNDEF
        if k=='zero':
            if ty[0]=='ptr': return NULL
            if ty[0] in('lit','struct'): return Agg([s.val(st,regs,('zero',),t) for t in (mod.resolve(ty))[1]])
            return P(0)
        if k=='glob':
            return s.global_ptr(st,v[1])
        if k=='cgep':
            b=s.val(st,regs,v[2],('ptr',),mod); off=b.off; cty=v[1]
            for n,(it,iv) in enumerate(v[3]):
                x=iv[1]
                if n==0: off=off+P(x*mod.size(cty))
                else:
                    o,cty=mod.field(cty,x); off=off+o
            return Ptr(b.obj,off)
        if k=='agg': return Agg([UNDEF if x==('undef',) else P(x[1]) for x in v[1]])
        raise Unsupported('value '+str(v))
    def global_ptr(s,st,name):
        return Ptr('@'+name,0)
    # ------------------------------------------------------------ memory
    def buf_index(s,b,off,size):
        """element index and component of byte offset off"""
        if b.raw and b.esz==1 and size>1:
            q=exact_div(b.n,P(size))
            if q is None: raise Unsupported('raw buffer retyping')
            b.esz=size; b.n=q; b.raw=None; b.kind={8:'w8',4:'int',1:'char'}.get(size,'?')
        q={}; r=0
        for m,c in off.t.items():
            if m==():
                q[()]=c//b.esz; r=c%b.esz
                if not q[()]: del q[()]
            else:
                if c%b.esz: raise Unsupported('byte offset %s not a multiple of %d'%(off,b.esz))
                q[m]=c//b.esz
        return Poly(q),r
    def load(s,st,p,ty,mod):
        size=mod.size(ty)
        if not isinstance(p,Ptr): raise Unsupported('load through %r'%p)
        if p.obj is None: raise Failed('null dereference')
        if p.obj not in st.mem:
            g=s.load_global(st,p,ty,mod)
            if g is not None: return g
            raise Unsupported('load from %s'%p.obj)
        o=st.mem[p.obj]
        if isinstance(o,Buf):
            if o.raw: o=st.w(p.obj)
            i,c=s.buf_index(o,p.off,size)
            if o.freed: 
                s.log('load: buffer still alive',False); raise Failed('use after free')
            s.require(st,And(GE(i,0),LT(i,o.n)),'read inside buffer')
            v=s.read(st,o,i,c)
            if ty==('i',1): return NE(v,0)
            if ty[0]=='ptr': 
                if isinstance(v,Ptr): return v
                raise Unsupported('pointer in buffer')
            return v
        if o.freed: raise Failed('use after free (object)')
        if not p.off.is_const(): raise Unsupported('symbolic offset into object %s'%p)
        k=p.off.const()
        if ty[0] in('lit','struct'):
            rt=mod.resolve(ty)
            return Agg([s.load(st,Ptr(p.obj,p.off+mod.field(rt,i)[0]),t,mod) for i,t in enumerate(rt[1])])
        if k in o.cells:
            sz,v=o.cells[k]
            if sz!=size: raise Unsupported('partial load %s size %d vs %d'%(p,size,sz))
            if v is UNDEF: return s.undef_read(st,p)
            if ty==('ptr',) and not isinstance(v,(Ptr,Fn)): raise Unsupported('non-pointer loaded as pointer')
            return v
        if k in o.abs: raise Unsupported('raw access to a reference counted pointer')
        return s.undef_read(st,p)
    def undef_read(s,st,p):
        return UNDEF
    def load_global(s,st,p,ty,mod):
        """constant tables of pointers (virtual function tables) and constant integers"""
        if not(isinstance(p.obj,str) and p.obj.startswith(('@','opaque:'))) or not p.off.is_const(): return None
        if ty[0]=='i' and p.off==ZERO and p.obj[0]=='@':
            for m in [mod]+s.prog.mods:      # a constant integer defined in one of the units
                mm=re.match(r'(?:\w+ )*constant i%d (-?\d+)(,|$)'%ty[1],m.globals.get(p.obj[1:],''))
                if mm and 'external' not in mm.group(0): return P(int(mm.group(1)))
        t=s.prog.global_table(p.obj if p.obj[0]!='@' else p.obj[1:],mod)
        if t is None: return None
        k=p.off.const()
        if ty!=('ptr',) or k%8 or not 0<=k//8<len(t): return None
        n=t[int(k//8)]
        return Ptr(None,0) if n is None else Ptr('@'+n,0)
    def store(s,st,p,v,ty,mod):
        size=mod.size(ty)
        if not isinstance(p,Ptr): raise Unsupported('store through %r'%p)
        if p.obj is None: raise Failed('null dereference')
        if p.obj not in st.mem: raise Unsupported('store to %s'%p.obj)
        o=st.mem[p.obj]
        if isinstance(o,Buf):
            o=st.w(p.obj)
            i,c=s.buf_index(o,p.off,size)
            if o.freed: raise Failed('write after free')
            s.require(st,And(GE(i,0),LT(i,o.n)),'write inside buffer')
            s.check_writable(st,o)
            if v is UNDEF: raise Unsupported('store of undef')
            if isinstance(v,Bool): v=Ite(v,1,0)
            if not isinstance(v,Poly): raise Unsupported('store of pointer in buffer')
            o.content=Content(o.content,Eff('store',(),TRUE,i,c,v))
            return
        if not p.off.is_const(): raise Unsupported('symbolic offset store into object')
        if isinstance(v,Agg):
            rt=mod.resolve(ty)
            for i,t in enumerate(rt[1]): s.store(st,Ptr(p.obj,p.off+mod.field(rt,i)[0]),v[i],t,mod)
            return
        o=st.w(p.obj); k=p.off.const()
        for kk in list(o.cells):
            if kk!=k and kk<k+size and k<kk+o.cells[kk][0]:
                del o.cells[kk]
        o.abs.pop(k,None)
        o.cells[k]=(size,v)
    def check_writable(s,st,b):
        ok=not b.ro and not (b.owners>1)
        s.log('write only to unshared storage',ok,'trivial')
        if not ok: raise Failed('write only to unshared storage','buffer %s'%b.id)
    # ------------------------------------------------------------ reading buffer contents
    def read(s,st,b,i,comp):
        return read_content(s,st.facts,b.content,i,comp)

    # ------------------------------------------------------------ calls
    def call(s,st,name,args,ins=None):
        """returns list of (state, kind, value)"""
        h=s.prim_for(name)
        if h is not None:
            s.used_contracts.add(name)
            r=h(s,st,args,name)
            if r is None: return [(st,'ret',None)]
            if isinstance(r,list) and not isinstance(r,Agg): return r
            return [(st,'ret',r)]
        f=s.prog.func(name)
        if f is None:
            f=s.prog.func(name.replace('C1','C2',1)) or s.prog.func(name.replace('D1','D2',1)) or s.prog.func(name.replace('D1Ev','D2Ev'))
        if f is None:
            if s.prog.load_for(name): return s.call(st,name,args,ins)
            raise Unsupported('external function without contract: '+demangle(name))
        return s.run_function(f,args,st)
    def prim_for(s,name):
        if name in s.primcache: return s.primcache[name]
        d=demangle(name); h=None
        for pat,fn in s.prims:
            if pat.fullmatch(d): h=fn; break
        s.primcache[name]=h
        return h
    def run_function(s,f,args,st):
        if s.depth>60: raise Unsupported('inlining too deep in '+demangle(f.name))
        if len(args)<len(f.params): raise Unsupported('argument count '+f.name)
        regs={p[0]:a for p,a in zip(f.params,args)}
        s.depth+=1; s.inlined.add(f.name)
        try:
            outs=s.run(f,st,regs,f.entry,None,None)
        finally: s.depth-=1
        res=[]
        for o in outs:
            if o[0]=='ret': res.append((o[1],'ret',o[2]))
            elif o[0]=='abort': res.append((o[1],'abort',o[2]))
        return res
    # ------------------------------------------------------------ running
    def run(s,f,st,regs,blk,prev,loop,skip_header=False):
        """executes until return / abort / loop latch / loop exit.
           outcomes: ('ret',st,val) ('abort',st,what) ('latch',st,regs,from) ('exit',st,regs,to,from)"""
        loops=find_loops(f); mod=f.module
        work=[(st,regs,blk,prev,-1)]; outs=[]; first=True; steps=0
        while work:
            steps+=1
            if steps>4000: raise Unsupported('too many paths')
            st,regs,blk,prev,i=work.pop()
            if i<0:
                if loop is not None:
                    if blk==loop.header and not first:
                        outs.append(('latch',st,regs,prev)); continue
                    if blk not in loop.blocks:
                        outs.append(('exit',st,regs,blk,prev)); continue
                if blk in loops and not (loop is not None and blk==loop.header):
                    for r in s.handle_loop(f,st,regs,loops[blk],prev):
                        if r[0]=='exit': work.append((r[1],r[2],r[3],r[4],-1))
                        else: outs.append(r)
                    first=False
                    continue
                B=f.blocks[blk]
                if first and skip_header: pass
                elif B.phis:
                    new={}
                    for ph in B.phis:
                        for v,b in ph.a[0]:
                            if b==prev: new[ph.res]=s.val(st,regs,v,ph.ty,mod); break
                        else: raise Unsupported('phi edge')
                    regs=dict(regs); regs.update(new)
                first=False; i=0
            B=f.blocks[blk]
            regs=dict(regs)
            forked=False
            while i<len(B.ins):
                ins=B.ins[i]; i+=1
                r=s.step(f,st,regs,ins)
                if r is None: continue
                # list of (state,kind,value)
                for (st2,kind,v) in r:
                    if kind=='abort': outs.append(('abort',st2,v))
                    else:
                        if len(r)==1:
                            st=st2
                            if ins.res is not None: regs[ins.res]=v
                        else:
                            r2=dict(regs)
                            if ins.res is not None: r2[ins.res]=v
                            work.append((st2,r2,blk,prev,i))
                if len(r)!=1 or r[0][1]=='abort': forked=True; break
            if forked: continue
            t=B.term
            if t.op=='ret':
                outs.append(('ret',st,s.val(st,regs,t.a[0],t.ty,mod) if t.a[0] is not None else None)); continue
            if t.op=='unreachable': continue
            if t.op=='br': work.append((st,regs,t.a[0],blk,-1)); continue
            if t.op=='condbr':
                c=s.val(st,regs,t.a[0],('i',1),mod)
                if c is UNDEF: raise Failed('branch on uninitialised value',f.name)
                if isinstance(c,Poly): c=NE(c,0)
                for (c2,tgt) in s.decide(st,c,t.a[1],t.a[2],f):
                    st2=st
                    if c2 is not None:
                        st2=st.copy(); st2.assume(c2); st2.br=st.br+(c2,)
                    work.append((st2,regs,tgt,blk,-1))
                continue
            if t.op=='switch':
                v=s.val(st,regs,t.a[0],t.ty,mod)
                if v.is_const():
                    tgt=t.a[1]
                    for cv,l in t.a[2]:
                        if P(cv[1])==v: tgt=l
                    work.append((st,regs,tgt,blk,-1)); continue
                cs=[]
                for cv,l in t.a[2]:
                    c=EQ(v,cv[1]); cs.append(Not(c))
                    if not prove(st.facts,Not(c)):
                        st2=st.copy(); st2.assume(c); st2.br=st.br+(c,); work.append((st2,regs,l,blk,-1))
                st2=st.copy(); st2.assume(*cs); st2.br=st.br+tuple(cs)
                if feasible(st2.facts): work.append((st2,regs,t.a[1],blk,-1))
                continue
            raise Unsupported('terminator '+t.op)
        return outs
    def is_abort_block(s,f,b):
        for ins in f.blocks[b].ins:
            if ins.op=='call' and ins.a[0]==('glob','__assert_fail'): return True
        return False
    def decide(s,st,c,a,b,f):
        if c is TRUE: return [(None,a)]
        if c is FALSE: return [(None,b)]
        aa=s.is_abort_block(f,a); ab=s.is_abort_block(f,b)
        if prove(st.facts,c):
            if ab: s.log('assertion in %s holds'%short(f.name),True)
            if aa and prove_deep(st.facts,FALSE): return []
            return [(None,a)]
        if prove(st.facts,Not(c)):
            if aa: s.log('assertion in %s holds'%short(f.name),True)
            if ab and prove_deep(st.facts,FALSE): return []
            return [(None,b)]
        if aa or ab:
            g=c if ab else Not(c)
            if prove_deep(st.facts,g):
                s.log('assertion in %s holds'%short(f.name),True)
                return [(None,a if ab else b)]
        return [(Not(c),b),(c,a)]
    def step(s,f,st,regs,ins):
        s.curmod=f.module
        op=ins.op; mod=f.module
        V=lambda v,ty: s.val(st,regs,v,ty,mod)
        if op=='load':
            regs[ins.res]=s.load(st,V(ins.a[0],('ptr',)),ins.ty,mod); return
        if op=='store':
            s.store(st,V(ins.a[1],('ptr',)),V(ins.a[0],ins.ty),ins.ty,mod); return
        if op=='gep':
            b=V(ins.a[0],('ptr',))
            if not isinstance(b,Ptr): raise Unsupported('gep on %r'%b)
            off=b.off; cty=ins.ty
            for n,(it,iv) in enumerate(ins.a[1]):
                if n==0: off=off+V(iv,it)*mod.size(cty)
                else:
                    rt=mod.resolve(cty)
                    if rt[0] in('lit','packed'):
                        o,cty=mod.field(cty,iv[1]); off=off+o
                    else:
                        off=off+V(iv,it)*mod.size(rt[2]); cty=rt[2]
            regs[ins.res]=Ptr(b.obj,off); return
        if op=='alloca':
            oid=newid(short(f.name)+'.'+str(ins.res))
            rt=mod.resolve(ins.ty)
            n=1
            if ins.a[0] is not None:
                n=V(ins.a[0],('i',64))
            if rt[0]=='arr' and rt[2][0] in('i','f') and False: pass
            if n!=1 and not (isinstance(n,Poly) and n==ONE):
                b=Buf(oid,mod.size(ins.ty),{('f',64):'double',('i',64):'long'}.get(ins.ty) or ('ints' if rt[0] in('lit','packed') and all(t[0]=='i' for t in rt[1]) else '?'),n,undef_content()); st.mem[oid]=b
            elif rt[0]=='arr' and rt[2] in(('f',64),('i',64),('i',8)) and rt[1]>4:
                st.mem[oid]=Buf(oid,mod.size(rt[2]),{('f',64):'double',('i',64):'long',('i',8):'char'}[rt[2]],rt[1],undef_content())
            else: st.mem[oid]=Cells(oid,mod.size(ins.ty),'stack')
            regs[ins.res]=Ptr(oid,0); return
        if op in('add','sub','mul'):
            a=V(ins.a[0],ins.ty); b=V(ins.a[1],ins.ty)
            if a is UNDEF or b is UNDEF: regs[ins.res]=UNDEF; return
            if isinstance(a,Ptr) or isinstance(b,Ptr):
                if op=='sub' and isinstance(a,Ptr) and isinstance(b,Ptr):
                    if a.obj!=b.obj: raise Unsupported('difference of unrelated pointers')
                    regs[ins.res]=a.off-b.off; return
                raise Unsupported('arithmetic on pointer value')
            if isinstance(a,Bool): a=Ite(a,1,0)
            if isinstance(b,Bool): b=Ite(b,1,0)
            if ins.ty==('i',1): raise Unsupported('i1 arithmetic')
            r=regs[ins.res]=a+b if op=='add' else a-b if op=='sub' else a*b
            if ins.ty[1] in(8,16) and not r.is_const(): s.require(st,And(GE(r,-(1<<ins.ty[1]-1)),LT(r,1<<ins.ty[1])),'no overflow of a narrow integer')
            return
        if op in('fadd','fsub','fmul','fdiv','fneg'):
            a=V(ins.a[0],ins.ty)
            if a is UNDEF: regs[ins.res]=UNDEF; return
            if op=='fneg': regs[ins.res]=-a; return
            b=V(ins.a[1],ins.ty)
            if b is UNDEF: regs[ins.res]=UNDEF; return
            regs[ins.res]=a+b if op=='fadd' else a-b if op=='fsub' else a*b if op=='fmul' else a*Inv(b); return
        if op=='icmp': regs[ins.res]=s.icmp(st,ins.a[0],V(ins.a[1],ins.ty),V(ins.a[2],ins.ty)); return
        if op=='fcmp':
            a=V(ins.a[1],ins.ty); b=V(ins.a[2],ins.ty); p=ins.a[0]
            if p=='uno': r=FALSE
            elif p=='ord': r=TRUE
            elif p=='false': r=FALSE
            elif p=='true': r=TRUE
            else:
                if a is UNDEF or b is UNDEF: raise Failed('comparison of uninitialised value')
                q=p[1:]; r={'eq':EQ,'ne':NE,'lt':LT,'le':LE,'gt':GT,'ge':GE}[q](a,b)
                if p=='one' : r=NE(a,b)
            regs[ins.res]=r; return
        if op=='select':
            c=V(ins.a[0],('i',1)); a=V(ins.a[1],ins.ty); b=V(ins.a[2],ins.ty)
            if isinstance(c,Poly): c=NE(c,0)
            if c is UNDEF: raise Failed('select on uninitialised value')
            if c is TRUE: regs[ins.res]=a; return
            if c is FALSE: regs[ins.res]=b; return
            if a is b or (isinstance(a,(Poly,Ptr)) and a==b): regs[ins.res]=a; return
            if isinstance(a,Bool) and isinstance(b,Bool):
                regs[ins.res]=Or(And(c,a),And(Not(c),b)); return
            if prove(st.facts,c): regs[ins.res]=a; return
            if prove(st.facts,Not(c)): regs[ins.res]=b; return
            if isinstance(a,Poly) and isinstance(b,Poly): regs[ins.res]=Ite(c,a,b); return
            if isinstance(a,Ptr) and isinstance(b,Ptr) and a.obj==b.obj: regs[ins.res]=Ptr(a.obj,Ite(c,a.off,b.off)); return
            o=[]
            for cc,x in((c,a),(Not(c),b)):
                st2=st.copy(); st2.assume(cc); st2.br=st.br+(cc,); o.append((st2,'ret',x))
            return o
        if op=='cast':
            kind,t1,v=ins.a; x=V(v,t1); t2=ins.ty
            regs[ins.res]=s.cast(st,kind,t1,t2,x); return
        if op=='freeze': regs[ins.res]=V(ins.a[0],ins.ty); return
        if op in('sdiv','srem','udiv','urem','shl','lshr','ashr','and','or','xor'):
            a=V(ins.a[0],ins.ty); b=V(ins.a[1],ins.ty)
            regs[ins.res]=s.intop(st,op,ins.ty,a,b); return
        if op=='extractvalue':
            v=V(ins.a[0],ins.ty)
            for k in ins.a[1]: v=UNDEF if v is UNDEF else v[k]
            regs[ins.res]=v; return
        if op=='insertvalue':
            v=V(ins.a[0],ins.ty); e=V(ins.a[1],ins.a[3])
            if v is UNDEF: v=Agg([UNDEF]*len(mod.resolve(ins.ty)[1]))
            v=Agg(v); assert len(ins.a[2])==1; v[ins.a[2][0]]=e; regs[ins.res]=v; return
        if op=='call':
            cal=ins.a[0]
            args=[None if t==('meta',) else V(v,t) for t,v in ins.a[1]]
            if cal[0]=='glob': name=cal[1]
            else:
                fp=V(cal,('ptr',))
                if isinstance(fp,Fn): name=fp.name
                elif isinstance(fp,Ptr) and isinstance(fp.obj,str) and fp.obj.startswith('@'): name=fp.obj[1:]
                else: raise Unsupported('indirect call')
            if name.startswith('llvm.'):
                r=s.intrinsic(st,name,args,ins)
                if ins.res is not None: regs[ins.res]=r
                return
            return s.call(st,name,args,ins)
        raise Unsupported(op)
    def cast(s,st,kind,t1,t2,x):
        if x is UNDEF: return UNDEF
        if kind=='sitofp' and getattr(s,'strict_fp',False) and isinstance(x,Poly) and not x.is_const() and t1[1]>32: return App('rnd',x)     # an integer is rounded to a double
        if kind=='fptrunc' and isinstance(x,Poly):      # rounding to single precision
            if x.is_const():
                q=x.const(); import struct
                if float(q)==q and struct.unpack('f',struct.pack('f',float(q)))[0]==q: return x
            return App('float32',x)
        if kind in('bitcast','ptrtoint','inttoptr','fpext','fptrunc','sitofp'): return x if not isinstance(x,Bool) else Ite(x,1,0)
        if kind=='zext':
            if isinstance(x,Bool): return Ite(x,1,0)
            if t1[1]<64 and not x.is_const() and t1!=('i',8): s.require(st,GE(x,0),'zero extension of a non-negative value')
            return x
        if kind=='sext': return x if not isinstance(x,Bool) else Ite(x,-1,0)
        if kind=='trunc':
            if t2==('i',1):
                a=the_atom(x) if isinstance(x,Poly) else None
                if a is not None and a.kind=='ite' and a.args[1]==ONE and a.args[2]==ZERO: return a.args[0]
                return NE(x,0)
            if isinstance(x,Poly) and not x.is_const() and STRICT_TRUNC:   # keeps the value only if it fits
                h=1<<(t2[1]-1); a=the_atom(x)
                if a is not None and a.kind=='ite' and all(isinstance(q,Poly) and q.is_const() for q in a.args[1:3]) : return x
                if not(prove(st.facts,LT(x,h)) and prove(st.facts,GE(x,-h))): return App('int%d'%t2[1],x,sort='I')
            return x
        if kind=='uitofp':
            if isinstance(x,Bool): return Ite(x,1,0)
            s.require(st,GE(x,0),'unsigned conversion of a non-negative value'); return x
        if kind in('fptosi','fptoui'):
            if not x.real: return x
            return App('trunc',x,sort='I')
        raise Unsupported('cast '+kind)
    def intop(s,st,op,ty,a,b):
        if a is UNDEF or b is UNDEF: return UNDEF
        if ty==('i',1) or (isinstance(a,Bool) or isinstance(b,Bool)):
            if isinstance(a,Poly): a=NE(a,0)
            if isinstance(b,Poly): b=NE(b,0)
            if op=='and': return And(a,b)
            if op=='or': return Or(a,b)
            if op=='xor':
                if b is TRUE: return Not(a)
                if a is TRUE: return Not(b)
                return Not(Iff(a,b))
            raise Unsupported(op+' on i1')
        if isinstance(a,Ptr): raise Unsupported(op+' on pointer')
        if op=='sdiv' or op=='udiv':
            if op=='udiv' and not a.is_const(): s.require(st,And(GE(a,0),GE(b,0)),'unsigned division of non-negative values')
            s.require(st,NE(b,0),'division by a non-zero value'); return Div(a,b)
        if op=='srem' or op=='urem':
            if op=='urem': s.require(st,And(GE(a,0),GE(b,0)),'unsigned remainder of non-negative values')
            s.require(st,NE(b,0),'remainder by a non-zero value'); return Mod(a,b)
        if op=='shl' and b.is_const(): return a*(2**b.const())
        if op in('lshr','ashr') and b.is_const():
            q=exact_div(a,P(2**b.const()))
            if q is not None: return q
            if op=='lshr' : s.require(st,GE(a,0),'shift of a non-negative value')
            elif not s.holds(st,GE(a,0)): raise Unsupported('ashr of possibly negative value')
            return Div(a,2**b.const())
        if op=='xor' and b.is_const() and b.const()==-1: return -a-1
        if op=='and' and b.is_const() and b.const()>0 and (b.const()+1)&b.const()==0:
            s.require(st,GE(a,0),'mask of a non-negative value')
            return Mod(a,P(b.const()+1))
        if op=='xor' and a==b: return ZERO
        if a.is_const() and b.is_const():
            x,y=a.const(),b.const(); return P(x&y if op=='and' else x|y if op=='or' else x^y)
        return App('bit'+op,a,b,sort='I')
    def icmp(s,st,p,a,b):
        if isinstance(a,Ptr) or isinstance(b,Ptr):
            if not(isinstance(a,Ptr) and isinstance(b,Ptr)): raise Unsupported('pointer comparison')
            if a.obj!=b.obj:
                if p=='eq': return FALSE
                if p=='ne': return TRUE
                raise Unsupported('ordering of unrelated pointers')
            a,b=a.off,b.off; p={'ult':'slt','ule':'sle','ugt':'sgt','uge':'sge'}.get(p,p)
        if a is UNDEF or b is UNDEF: raise Failed('comparison of uninitialised value')
        if isinstance(a,Bool) or isinstance(b,Bool):
            if isinstance(a,Poly): a=NE(a,0)
            if isinstance(b,Poly): b=NE(b,0)
            r=Iff(a,b); return r if p=='eq' else Not(r)
        if p=='eq': return EQ(a,b)
        if p=='ne': return NE(a,b)
        if p[0]=='s': return {'slt':LT,'sle':LE,'sgt':GT,'sge':GE}[p](a,b)
        f={'ult':LT,'ule':LE,'ugt':GT,'uge':GE}[p]
        na=a.is_const() and a.const()>=0 or s.holds(st,GE(a,0)); nb=b.is_const() and b.const()>=0 or s.holds(st,GE(b,0))
        if na and nb: return f(a,b)
        big=lambda x: LT(x,0)
        if p in('ult','ule'): return Or(And(Iff(big(a),big(b)),f(a,b)),And(Not(big(a)),big(b)))
        return Or(And(Iff(big(a),big(b)),f(a,b)),And(big(a),Not(big(b))))
    def intrinsic(s,st,name,args,ins):
        n=name[5:]
        if n.startswith('lifetime'):
            o=st.mem.get(args[1].obj) if isinstance(args[1],Ptr) else None
            if isinstance(o,Cells) and (o.cells or o.abs):
                if o.abs: raise Failed('temporary is destroyed before its lifetime ends',args[1].obj)
                st.w(args[1].obj).cells.clear()
            return None
        if n.startswith(('dbg','assume','experimental.noalias','invariant','stackrestore','prefetch','var.annotation')): return None
        if n.startswith('stacksave'): return NULL
        if n.startswith('expect'): return args[0]
        if n.startswith(('memcpy','memmove')): s.memcpy(st,args[0],args[1],args[2]); return None
        if n.startswith('memset'): s.memset(st,args[0],args[1],args[2]); return None
        if n.startswith(('umul.with.overflow','smul.with.overflow')): return Agg([args[0]*args[1],FALSE])
        if n.startswith(('uadd.with.overflow','sadd.with.overflow')): return Agg([args[0]+args[1],FALSE])
        if n.startswith('fabs'): return App('fabs',args[0]) if getattr(s,'opaque_abs',0) and P(args[0]).const() is None else Ite(LT(args[0],0),-args[0],args[0])
        if n.startswith('smax'): return Ite(LT(args[0],args[1]),args[1],args[0])
        if n.startswith('smin'): return Ite(LT(args[0],args[1]),args[0],args[1])
        if n.startswith('abs'): return Ite(LT(args[0],0),-args[0],args[0])
        if n.startswith('fmuladd'): return args[0]*args[1]+args[2]
        m=re.match(r'(sqrt|floor|ceil|sin|cos|exp|log|pow|round|rint|trunc|nearbyint|exp2|log2|log10)\.',n)
        if m: return App(m.group(1),*args)
        if n.startswith(('objectsize','is.constant')): raise Unsupported(name)
        if n=='trap': return None
        raise Unsupported('intrinsic '+name)
    def memcpy(s,st,d,sr,n):
        if n.is_const() and n.const()==0: return
        so=st.mem.get(sr.obj); do=st.mem.get(d.obj)
        if isinstance(so,Buf) and isinstance(do,Buf):
            if so.raw and not do.raw: so=st.w(sr.obj); s.buf_index(so,ZERO,do.esz if do.esz!=16 else 8)
            do=st.w(d.obj)
            if do.raw and so.esz==16 and so.kind=='cdouble' and exact_div(do.n,P(16)) is not None: do.n=exact_div(do.n,P(16)); do.esz=16; do.kind='cdouble'; do.raw=None
            if do.raw: s.buf_index(do,ZERO,so.esz if so.esz!=16 else 8)
            if so.esz!=do.esz and n.is_const() and n.const()%8==0 and 'triplet' in(so.kind,do.kind):     # fields of one element
                i,c=s.buf_index(so,sr.off,0); j,c2=s.buf_index(do,d.off,0); n=n.const()
                if c+n>so.esz or c2+n>do.esz: raise Unsupported('memcpy across elements')
                s.require(st,And(GE(i,0),LT(i,so.n)),'read inside buffer'); s.require(st,And(GE(j,0),LT(j,do.n)),'write inside buffer'); s.check_writable(st,do)
                if so.freed or do.freed: raise Failed('use after free')
                vals=[read_content(s,st.facts,so.content,i,c+b) for b in range(0,n,8)]
                for b,x in zip(range(0,n,8),vals): do.content=Content(do.content,Eff('store',(),TRUE,j,c2+b,x))
                return
            if so.esz!=do.esz: raise Unsupported('memcpy between element sizes')
            cnt=exact_div(n,P(so.esz))
            if cnt is None: raise Unsupported('memcpy length')
            i,c=s.buf_index(so,sr.off,0); j,c2=s.buf_index(do,d.off,0)
            if c or c2: raise Unsupported('memcpy alignment')
            if cnt==ZERO or s.holds(st,EQ(cnt,0)): return
            s.require(st,GE(cnt,0),'copy length is non-negative')
            s.require(st,Or(LE(cnt,0),And(GE(i,0),LE(i+cnt,so.n))),'block read inside buffer')
            s.require(st,Or(LE(cnt,0),And(GE(j,0),LE(j+cnt,do.n))),'block write inside buffer')
            s.check_writable(st,do)
            if so.freed or do.freed: raise Failed('use after free')
            v=fresh('c'); f2=st.facts.add(GE(v,0),LT(v,cnt)); src=so.content
            comps=comps_of(so.kind)
            vals=[read_content(s,f2,src,i+v,cc) for cc in comps]
            for cc,x in zip(comps,vals):
                do.content=Content(do.content,Eff('store',[(the_atom(v),cnt)],TRUE,j+v,cc,x))
            return
        if not n.is_const(): raise Unsupported('memcpy of symbolic size into object')
        n=n.const()
        if isinstance(so,Cells) and isinstance(do,Cells):
            a=sr.off.const(); b=d.off.const(); do=st.w(d.obj); so=st.mem[sr.obj]
            cs={k:v for k,v in so.cells.items() if a<=k<a+n}
            if any(a<=k<a+n for k in so.abs): raise Unsupported('memcpy of reference counted pointer')
            for k in list(do.cells):
                if b<=k<b+n: del do.cells[k]
            for k,v in cs.items(): do.cells[k-a+b]=v
            return
        if isinstance(so,Buf) and isinstance(do,Cells):
            i,c=s.buf_index(so,sr.off,0)
            if n%so.esz or c: raise Unsupported('memcpy partial element')
            do=st.w(d.obj); b=d.off.const()
            for e in range(n//so.esz):
                s.require(st,And(GE(i+e,0),LT(i+e,so.n)),'read inside buffer')
                for cc in comps_of(so.kind):
                    do.cells[b+e*so.esz+cc]=(so.esz if so.kind!='cdouble' else 8, s.read(st,so,i+e,cc))
            return
        if isinstance(so,Cells) and isinstance(do,Buf):
            do=st.w(d.obj); i,c=s.buf_index(do,d.off,0)
            if n%do.esz or c: raise Unsupported('memcpy partial element')
            a=sr.off.const(); s.check_writable(st,do)
            for e in range(n//do.esz):
                s.require(st,And(GE(i+e,0),LT(i+e,do.n)),'write inside buffer')
                for cc in comps_of(do.kind):
                    if a+e*do.esz+cc not in so.cells: raise Unsupported('memcpy of uninitialised cells')
                    v=so.cells[a+e*do.esz+cc][1]
                    if v is UNDEF: raise Unsupported('copy of undef')
                    do.content=Content(do.content,Eff('store',(),TRUE,i+e,cc,v))
            return
        if isinstance(sr.obj,str) and sr.obj.startswith('@') and isinstance(do,Cells):
            # constant initialiser
            do=st.w(d.obj)
            if P(sr.off)!=ZERO or not P(n).is_const(): raise Unsupported('part of a constant')
            for k,(sz,v) in s.global_cells(sr.obj[1:],int(P(n).const())).items(): do.cells[d.off.const()+k]=(sz,v)
            return
        if isinstance(sr.obj,str) and sr.obj.startswith('@') and isinstance(do,Buf):
            do=st.w(d.obj)
            if do.raw: do.raw=None; do.kind='char'
            if do.esz!=1: raise Unsupported('constant characters into another type')
            s.require(st,And(GE(d.off,0),LE(d.off+n,do.n)),'block write inside buffer'); s.check_writable(st,do)
            for k,(sz,v) in s.global_cells(sr.obj[1:],n).items(): do.content=Content(do.content,Eff('store',(),TRUE,d.off+k,0,v))
            return
        raise Unsupported('memcpy %s <- %s'%(d,sr))
    def global_cells(s,name,n):
        """byte arrays: [N x i8] c"..." """
        for m in s.prog.mods:
            g=m.globals.get(name); mm=g and re.search(r'constant \[(\d+) x i8\] (?:c"((?:[^"])*)"|zeroinitializer)',g)
            if not mm: continue
            b=bytearray(); t=mm.group(2) or ''; i=0
            while i<len(t):
                if t[i]=='\\': b.append(int(t[i+1:i+3],16)); i+=3
                else: b.append(ord(t[i])); i+=1
            b+=bytes(int(mm.group(1))-len(b))
            if n<=len(b): return {k:(1,P(b[k])) for k in range(n)}
        raise Unsupported('constant '+name)
    def memset(s,st,d,v,n):
        do=st.mem.get(d.obj)
        if not(isinstance(v,Poly) and v==ZERO): raise Unsupported('memset value')
        if isinstance(do,Cells):
            do=st.w(d.obj); b=d.off.const(); k=0
            while k<n.const(): do.cells[b+k]=(8,ZERO); k+=8
            return
        do=st.w(d.obj)
        if do.raw and d.off==ZERO and n==do.n: s.check_writable(st,do); do.content=const_content(ZERO); return     # all of it: zero whatever the element type
        if do.raw: s.buf_index(do,ZERO,8)
        cnt=exact_div(n,P(do.esz)); j,c=s.buf_index(do,d.off,0)
        if cnt is None or c: raise Unsupported('memset length')
        if cnt==ZERO or s.holds(st,EQ(cnt,0)): return
        s.require(st,GE(cnt,0),'fill length is non-negative')
        s.require(st,Or(LE(cnt,0),And(GE(j,0),LE(j+cnt,do.n))),'block write inside buffer'); s.check_writable(st,do)
        w=fresh('c')
        for cc in comps_of(do.kind): do.content=Content(do.content,Eff('store',[(the_atom(w),cnt)],TRUE,j+w,cc,ZERO))
    from loops import handle_loop, peel, summarize, exit_at

def short(n):
    d=demangle(n)
    d=re.sub(r'\(.*','',d); d=re.sub(r'<.*?>','',d)
    return d.split('::')[-1].split(' ')[-1] or n

# ==================================================================== reading
def read_content(ex,facts,content,i,comp,depth=0):
    c=content
    while c.parent is not None:
        e=c.eff
        if e.comp!=comp and not (isinstance(e.comp,tuple)): c=c.parent; continue
        r=match_effect(ex,facts,e,i)
        if r[0]=='skip': c=c.parent; continue
        if r[0]=='hit':
            _,guard,val=r
            if e.kind=='store':
                if guard is TRUE: return val
                f2=facts.add(Not(guard)) if c.root().base[0]=='undef' else facts
                return Ite(guard,val,read_content(ex,f2,c.parent,i,comp,depth+1))
            rest=read_content(ex,facts,c.parent,i,comp,depth+1)
            return rest+(val if guard is TRUE else Ite(guard,val,0))
        z=lazy_read(ex,facts,c,i,comp)
        if z is not None: return z
        raise Failed('written position is determined','cannot relate index %s to write %r'%(i,e))
    b=c.base
    if b[0]=='init': return Sel(b[1],i,comp,b[2])
    if b[0]=='const': return b[1]
    if b[0]=='lam': return b[1](i,comp)
    if b[0]=='undef':
        if ex.mute: return fresh('undef','R')
        ex.log('value read was written before',False)
        raise Failed('value read was written before','index %s'%i)
    raise Unsupported(str(b))

LAZY={}
def lazy_read(ex,facts,c,i,comp):
    """an element whose writer depends on digits of the index not known yet: named, resolved when the index is"""
    from loops import has_hv
    sort=None
    for e in c.chain():
        if e.comp!=comp: continue
        if sort is None and isinstance(e.val,Poly): sort='R' if e.val.real else 'I'
        m={v for v,_ in e.vs}
        for x in (e.idx,e.val,e.guard)+tuple(n for _,n in e.vs):
            if not isinstance(x,(Poly,Bool)) or has_hv(x): return None
            for v in x.fv:
                if v in m: continue
                if not hasattr(v,'args') or str(v.args[0]).split('!')[0] in('k','p','x','hv'): return None
    r=c.root().base
    if r[0]=='init' and r[1].startswith('hv!'): return None
    if r[0]=='undef' and not ex.mute:
        q=c; ok=False
        while q.parent is not None and not ok:
            e=q.eff; q=q.parent
            if e.comp==comp and e.kind=='store':
                if covers(facts,e,i): ok=True; break
                try: h=match_effect(ex,facts,e,i)
                except Failed: h=('skip',)
                ok=h[0]=='hit' and h[1] is TRUE
        if not ok: return None
    nm='lazy!%d'%id(c); LAZY[nm]=c
    return Sel(nm,i,comp,sort or 'R')
def unlazy(ex,facts,p,tr=lambda c:c):
    for _ in range(6):
        mp={}
        for a in all_atoms(p):
            if a.kind=='sel' and a.args[0] in LAZY and not any(str(v.args[0]).startswith('@') for v in a.fv if hasattr(v,'args')):
                v=read_content(ex,facts,tr(LAZY[a.args[0]]),a.args[1],a.args[2])
                if v!=a.poly: mp[a]=v
        if not mp: return p
        p=subst(p,mp)
    return p
def linear_parts(p,vs):
    """p = c0 + sum c_v v ; None if not linear"""
    co={}; rest=p
    for v in vs:
        sp=rest.coeff_split(v)
        if sp is None or any(e>1 for e in sp): return None
        co[v]=sp.get(1,ZERO); rest=sp.get(0,ZERO)
        if any(w in co[v].fv for w in vs): return None
    return co,rest

def numbering(facts,idx,v,n):
    """idx is f(v) for a function f injective on [0,m), n<=m: its name and m"""
    a=the_atom(idx)
    if a is None or a.kind!='sel' or a.args[2]!=0: return None
    c0=a.args[1]-v.poly
    if v in c0.fv: return None
    m=facts.axioms.get('inverse:'+a.args[0])
    if m is None or v in m.fv: return None
    return (a.args[0],m,c0) if c0==ZERO and n==m or prove(facts.add(GE(n,1)),And(GE(c0,0),LE(n+c0,m))) else None
def witness(e,i,facts):
    vs=[v for v,_ in e.vs]
    lp=linear_parts(e.idx,vs)
    if lp is None: return None
    co,c0=lp; R=i-c0; w={}
    order=sorted(vs,key=lambda v:(-max([sum(x for _,x in m) for m in co[v].t] or [0]), -max([abs(c) for c in co[v].t.values()] or [0])))
    todo=[v for v in order if co[v].t]
    for n,v in enumerate(todo):
        c=co[v]
        if len(c.t)==1:
            (cm,cc),=c.t.items(); q={}
            for m,k in R.t.items():
                d=dict(m); ok=True
                for a,x in cm:
                    if d.get(a,0)<x: ok=False; break
                    d[a]-=x
                    if not d[a]: del d[a]
                if ok and k%cc==0 and (cm or n==len(todo)-1 or True):
                    if not cm and n!=len(todo)-1 and m==() and False: continue
                    q[tuple(sorted(d.items(),key=lambda t:t[0].id))]=k//cc
            q=Poly(q)
        else:
            q=exact_div(R,c)
            if q is None:
                # terms whose leading monomials match
                q=ZERO
                lead=max(c.t,key=lambda m:sum(x for _,x in m))
                for m,k in list(R.t.items()):
                    d=dict(m); ok=True
                    for a,x in lead:
                        if d.get(a,0)<x: ok=False; break
                        d[a]-=x
                        if not d[a]: del d[a]
                    if ok and k%c.t[lead]==0:
                        q=q+Poly({tuple(sorted(d.items(),key=lambda t:t[0].id)):k//c.t[lead]})
        w[v]=q; R=R-q*c
    return w,R

def unify_witness(e,i,vs):
    """candidate solutions of idx(vs)=i: variables inside table entries matched with the table entries of i, the others linearly"""
    import itertools
    if not any(a.kind=='sel' and any(v in a.fv for v in vs) for a in e.idx.atoms()): return
    for mp in itertools.islice(punify(e.idx,i,list(vs)),64): 
        if set(mp)==set(vs): yield mp
def punify(pat,tgt,vs,depth=0):
    tabs=[a for a in sorted(pat.atoms()) if a.kind=='sel' and any(v in a.fv for v in vs)]
    if not any(v in pat.fv for v in vs): yield {}; return
    if tabs and depth<4:
        a=max(tabs,key=lambda a:(len([v for v in vs if v in a.fv]),-a.id))
        bs=[b for b in sorted(all_atoms(tgt)) if b.kind=='sel' and b.args[0]==a.args[0] and b.args[2]==a.args[2]]
        for b in bs:
            for m1 in punify(a.args[1],b.args[1],[v for v in vs if v in a.fv],depth+1):
                if any(v in q.fv for q in m1.values() for v in vs): continue
                for m2 in punify(subst(pat,m1),tgt,[v for v in vs if v not in m1],depth+1): yield {**m1,**m2}
        return
    rest=[v for v in vs if v in pat.fv]
    if tabs: return
    for v in rest:
        sp=pat.coeff_split(v)
        if sp is None or set(sp)-{0,1} or 1 not in sp or any(w in sp[1].fv for w in rest): return
    co={v:pat.coeff_split(v)[1] for v in rest}; D=tgt-subst(pat,{v:ZERO for v in rest}); w={}
    for v in sorted(rest,key=lambda v:-max([sum(x for _,x in m) for m in co[v].t] or [0])):
        w[v],D=quotient(D,co[v])
    if not D.t: yield w
def quotient(D,c):
    """D = q*lead(c)+..: the monomials of D divisible by the leading monomial of c, and what is left of D"""
    lead=max(c.t,key=lambda m:(sum(x for _,x in m),tuple(a.id for a,_ in m))); q=ZERO
    for m,kk in D.t.items():
        d=dict(m); good=kk%c.t[lead]==0
        for a,x in lead:
            if d.get(a,0)<x: good=False; break
            d[a]-=x
            if not d[a]: del d[a]
        if good: q=q+Poly({tuple(sorted(d.items(),key=lambda t:t[0].id)):kk//c.t[lead]})
    return q,D-q*c
def digit_miss(facts,e,i,idxvars):
    """position = v + n*F with v in [0,n) and i = v0 + n*F0 with v0 in [0,n): they meet only if v=v0 and F=F0"""
    for v,n in idxvars:
        oth=[w for w,_ in idxvars]
        if any(w in n.fv for w in oth): continue
        r=e.idx-v.poly; free=Poly({m:c for m,c in r.t.items() if not any(w in a.fv for a,_ in m for w in oth)})
        F=exact_div(r-free,n)
        if F is None or not F.t: continue
        F0,v0=quotient(i-free,n)
        if not prove(facts,And(GE(v0,0),LT(v0,n))): continue
        ren={w:fresh('m') for w,_ in e.vs}; ren[v]=v0
        f=facts.add(*[And(GE(ren[w],0),LT(ren[w],subst(m,ren))) for w,m in e.vs],subst(e.guard,ren))
        return prove(f,NE(subst(F,ren),F0)) or listed_apart(f,subst(F,ren),F0)
    return False
def listed_apart(facts,a,b):
    """two numbers from a list that increases strictly within segments (axiom 'segments:<sym>'): different places of one segment"""
    z={x:ZERO for x in a.atoms()|b.atoms() if x.kind not in('sel','prod') and prove(facts,EQ(x.poly,0))}
    if z: a,b=subst(a,z),subst(b,z)
    x,y=the_atom(a),the_atom(b)
    if x is None or y is None or x.kind!='sel' or y.kind!='sel' or x.args[0]!=y.args[0]: return False
    sg=facts.axioms.get('segments:'+str(x.args[0]))
    if sg is None: return False
    p,q=x.args[1],y.args[1]
    if not prove(facts,NE(p,q)): return False
    rows=[]
    for u in [p,q]+[t for t in facts.l if t.k!='forall']:
        for s_ in sorted(all_atoms(u)):
            if s_.kind=='sel' and s_.args[0]==sg[0]:
                for r in(s_.args[1],s_.args[1]-1):
                    if r not in rows: rows.append(r)
    for r in rows[:8]:
        lo=Sel(sg[0],r,0,'I'); hi=Sel(sg[0],r+1,0,'I')
        if prove(facts,And(GE(r,0),LT(r,sg[1]),LE(lo,p),LT(p,hi),LE(lo,q),LT(q,hi))): return True
    return False
def covers(facts,e,i):
    """the family of writes is a complete mixed-radix numbering of an interval that contains i"""
    if e.guard is not TRUE: return False
    vs=list(e.vs); lp=linear_parts(e.idx,[v for v,_ in vs])
    if lp is None or any(x in n.fv for _,n in vs for x,_ in vs): return False
    co,c0=lp; c=ONE
    if not prove(facts,And(*[GE(n,0) for _,n in vs])): return False
    while vs:
        nx=[t for t in vs if co[t[0]]==c] or [t for t in vs if prove(facts,EQ(co[t[0]],c)) or prove_deep(facts,EQ(co[t[0]],c))]
        if not nx: return False
        if len(nx)>1: nx=[t for t in nx if prove(facts,EQ(t[1],1))] or nx
        c=c*nx[0][1]; vs.remove(nx[0])
    d=i-c0; g=And(GE(d,0),LT(d,c))
    return prove(facts,g) or prove_deep(facts,g)
def only_candidate(facts,e,idxvars,w):
    """all digits of the index but one are in range and the remaining one is the most significant:
    no other point of the family can have this index"""
    lp=linear_parts(e.idx,[v for v,_ in e.vs])
    if lp is None: return False
    co=lp[0]
    for v0,_ in idxvars:
        oth=[(v,n) for v,n in idxvars if v is not v0]
        if any(x in n.fv for _,n in oth for x,_ in e.vs): continue
        if not prove(facts,And(*[And(GE(w[v],0),LT(w[v],n)) for v,n in oth])): continue
        if not prove(facts,And(*[GE(co[v],0) for v,n in idxvars])): continue
        d=co[v0]-1-sum([co[v]*(n-1) for v,n in oth],ZERO)
        f2=facts.add(*[GE(n,1) for _,n in oth])
        if prove(f2,GE(d,0)) or prove_deep(f2,GE(d,0)): return True
    def pv(f,g): return prove(f,g) or prove_deep(f,g)
    def unique(vs):
        # the part of the index made by the inner digits stays below the coefficient of the outer one, on both sides
        if len(vs)<=1: return True
        for v0,_ in vs:
            oth=[(v,n) for v,n in vs if v is not v0]
            if any(x in n.fv for _,n in oth for x,_ in e.vs): continue
            if not prove(facts,And(*[GE(co[v],0) for v,n in vs])): continue
            part=sum([co[v]*w[v] for v,n in oth],ZERO); f2=facts.add(*[GE(n,1) for _,n in oth])
            if pv(f2,GE(part,0)) and pv(f2,LT(part,co[v0])) and pv(f2,LT(sum([co[v]*(n-1) for v,n in oth],ZERO),co[v0])) and unique(oth): return True
        return False
    return unique(list(idxvars))
def match_effect(ex,facts,e,i):
    if not e.vs:
        d=i-e.idx
        if not d.t: 
            return gcheck(facts,('hit',e.guard,e.val))
        if d.is_const(): return ('skip',)
        if prove(facts,EQ(d,0)): return gcheck(facts,('hit',e.guard,e.val))
        if prove(facts,NE(d,0)): return ('skip',)
        return ('hit',And(e.guard,EQ(d,0)),e.val)
    if prove(facts,FALSE): return ('skip',)
    idxvars=[(v,n) for v,n in e.vs if v in e.idx.fv]
    free=[(v,n) for v,n in e.vs if v not in e.idx.fv]
    # empty box?
    for v,n in e.vs:
        if not any(x in n.fv for x,_ in e.vs) and prove(facts,LE(n,0)): return ('skip',)
    r=witness(e,i,facts)
    if r is not None:
        w,R=r
        if not R.t or prove(facts,EQ(R,0)):
            mp={v:w[v] for v,_ in idxvars}
            for v,n in free:
                if e.kind=='store' : mp[v]=subst(n,mp)-1
            inb=And(*[And(GE(mp[v],0),LT(mp[v],subst(n,mp))) for v,n in e.vs if v in mp])
            g=And(inb,subst(e.guard,mp))
            val=subst(e.val,mp)
            if e.kind=='accum':
                fr=[(v,subst(n,mp)) for v,n in free]
                if g.lvl<0 and any(v in subst(e.guard,mp).fv for v,_ in free):
                    val=MSum(fr,Ite(subst(e.guard,mp),val,0)); g=inb
                else: val=MSum(fr,val)
            if prove(facts,g) or prove_deep(facts,g): return ('hit',TRUE,val)
            if len(idxvars)==1 or only_candidate(facts,e,idxvars,mp):
                if prove(facts,Not(g)): return ('skip',)
                return ('hit',g,val)
    if len(idxvars)>1:
        # ragged family (its positions are distinct): match the index structurally
        for mp in unify_witness(e,i,[v for v,_ in idxvars]):
            if subst(e.idx,mp)!=i and not prove(facts,EQ(subst(e.idx,mp),i)): continue
            if free: continue
            g=And(*[And(GE(mp[v],0),LT(mp[v],subst(n,mp))) for v,n in e.vs],subst(e.guard,mp))
            if prove(facts,g) or prove_deep(facts,g): return ('hit',TRUE,subst(e.val,mp))
        if digit_miss(facts,e,i,idxvars): return ('skip',)
    if len(e.vs)==1:
        # position f(v) with f known to be injective: the only candidate is the inverse image of i
        nm=numbering(facts,e.idx,*e.vs[0])
        if nm is not None:
            v,n=e.vs[0]; r=the_atom(i)
            t=r.args[1] if r is not None and r.kind=='sel' and r.args[0]==nm[0] and prove(facts,And(GE(r.args[1],0),LT(r.args[1],nm[1]))) else None
            inv=[] if t is not None else [EQ(Sel(nm[0],Sel(nm[0][:-2]+'.inv',i,0,'I'),0,'I'),i)]
            if t is None: t=Sel(nm[0][:-2]+'.inv',i,0,'I')
            t=t-nm[2]; mp={v:t}; return gcheck(facts,('hit',And(GE(t,0),LT(t,subst(n,mp)),subst(e.guard,mp),*inv),subst(e.val,mp)))
    if len(e.vs)==1 and idxvars:
        h=diagonal(facts,e,i)
        if h is not None: return gcheck(facts,h)
    # position given by a running count: same count at t, and t is one of the writers (writers have distinct counts)
    if len(e.vs)==1:
        v,n=e.vs[0]; d=e.idx-i
        es=[a for a in e.idx.atoms() if a.kind=='sum' and v in a.fv and len(a.args[0])==1 and a.args[0][0]==v.poly]
        if len(es)==1:
            for b in i.atoms():
                if b.kind=='sum' and len(b.args[0])==1 and b.args[1:]==es[0].args[1:]:
                    t=b.args[0][0]; mp={v:t}
                    if subst(e.idx,mp)==i:
                        g=And(GE(t,0),LT(t,subst(n,mp)),subst(e.guard,mp))
                        if prove(facts,g): return ('hit',TRUE,subst(e.val,mp))
    # contiguous / provably outside
    lp=linear_parts(e.idx,[v for v,_ in e.vs])
    if lp is not None:
        co,c0=lp; lo=c0; hi=c0
        ok=True
        for v,n in e.vs:
            c=co[v]
            if not c.t: continue
            if prove(facts,GE(c,0)): hi=hi+c*(n-1)
            elif prove(facts,LE(c,0)): lo=lo+c*(n-1)
            else: ok=False
        if ok and prove(facts,Or(LT(i,lo),GT(i,hi))): return ('skip',)
    # exhaustive: no member of the family equals i
    mp={v:fresh('w') for v,_ in e.vs}
    f2=facts.add(*[And(GE(mp[v],0),LT(mp[v],subst(n,mp))) for v,n in e.vs])
    if prove(f2,NE(subst(e.idx,mp),i)): return ('skip',)
    return ('unknown',)
def diagonal(facts,e,i):
    """one writer variable v with stride M+s, s=+-1: the position is (unit digit, M digit); both must agree"""
    v,n=e.vs[0]; D=i-e.idx; sp=e.idx.coeff_split(v)
    if sp is None or set(sp)-{0,1} or 1 not in sp: return None
    c=sp[1]; s=c.t.get((),0)
    if s not in(1,-1): return None
    M=c-s
    if not M.t: return None
    deg=max(sum(x for _,x in m) for m in M.t)
    for lead in [m for m in M.t if sum(x for _,x in m)==deg]:
        A=ZERO
        for m,k in D.t.items():
            d=dict(m); ok=k%M.t[lead]==0
            for a,x in lead:
                if d.get(a,0)<x: ok=False; break
                d[a]-=x
                if not d[a]: del d[a]
            if ok: A=A+Poly({tuple(sorted(d.items(),key=lambda t:t[0].id)):k//M.t[lead]})
        B=D-A*M; sb=B.coeff_split(v)
        if sb is None or set(sb)-{0,1} or sb.get(1,ZERO) not in(ONE,-ONE): continue
        f=facts.add(GE(v.poly,0),LT(v.poly,n),e.guard)
        if not prove(f,And(LT(B,M),LT(-B,M))): continue
        w=-sb.get(0,ZERO) if sb[1]==ONE else sb.get(0,ZERO)
        mp={v:w}; g=And(GE(w,0),LT(w,n),EQ(subst(A,mp),0),subst(e.guard,mp))
        if prove(facts,g): return ('hit',TRUE,subst(e.val,mp))
        return ('hit',g,subst(e.val,mp))
    return None
def gcheck(facts,r):
    g=r[1]
    if g is TRUE: return r
    if prove(facts,g): return (r[0],TRUE,r[2])
    if prove(facts,Not(g)): return ('skip',)
    return r

# ==================================================================== deeper proof attempts
def cut_split(facts,polys):
    """mapping that splits dimension products at all their common cut points (when these are ordered)"""
    prods={}
    for p in polys:
        for a in all_atoms(p):
            if a.kind=='prod' and not any(v.args[0].startswith('@') for v in a.fv): prods.setdefault(a.args[0],set()).add(a)
    mp={}
    for base,ps in prods.items():
        cuts=set()
        for a in ps: cuts|={a.args[1],a.args[2]}
        sels=[x for p in polys for x in all_atoms(p) if x.kind=='sel' and x.args[0]==base and not any(v.args[0].startswith('@') for v in x.fv)]
        for x in sels:
            if len(cuts)<12: cuts|={x.args[1],x.args[1]+1}
        cuts=sort_cuts(facts,list(cuts))
        if cuts is None: continue
        pos={c:k for k,c in enumerate(cuts)}
        for a in ps:
            r=ONE; lo,hi=a.args[1],a.args[2]
            l=find_eq(facts,cuts,lo); h=find_eq(facts,cuts,hi)
            if l is None or h is None: continue
            if h<=l: mp[a]=ONE; continue
            for k in range(l,h): r=r*seg(facts,base,cuts[k],cuts[k+1])
            if r!=a.poly: mp[a]=r
    return mp
def seg(facts,base,lo,hi):
    d=hi-lo
    if d.is_const() and d.const()==1: return Sel(base,lo,0,'I')
    return Prod(base,lo,hi)
def find_eq(facts,cuts,x):
    for k,c in enumerate(cuts):
        if c==x: return k
    for k,c in enumerate(cuts):
        if prove(facts,EQ(c,x)): return k
    return None
def sort_cuts(facts,cuts):
    out=[]
    for c in cuts:
        placed=False
        for k,o in enumerate(out):
            if prove(facts,EQ(c,o)): placed=True; break
        if placed: continue
        for k,o in enumerate(out):
            if prove(facts,LE(c,o)): out.insert(k,c); placed=True; break
            if not prove(facts,LE(o,c)): return None
        if not placed: out.append(c)
    return out
def unit_facts(facts,polys):
    """atoms that the facts force to 0 or 1, and variables forced to a constant"""
    mp={}
    ats=set()
    for p in polys:
        for a in all_atoms(p):
            if a.kind in('var','sel','prod') and a.sort=='I' and not any(v.args[0].startswith('@') for v in a.fv): ats.add(a)
    for a in sorted(ats):
        if len(mp)>12: break
        for k in(1,0):
            if not any(a in f.fv or a in all_atoms(f) for f in facts.l): break
            if prove(facts,EQ(a.poly,k),timeout=800): mp[a]=P(k); break
    return mp
def eq_facts(facts):
    """oriented equations atom = poly from the facts"""
    mp={}
    for f in facts.l:
        if f.k=='==' and not f.a[0].real:
            p=subst(f.a[0],mp) if mp else f.a[0]
            for m,c in sorted(p.t.items(),key=lambda mc:[-a.id for a,_ in mc[0]]):
                if len(m)==1 and m[0][1]==1 and abs(c)==1 and m[0][0].kind in('var','sel'):
                    a=m[0][0]; rhs=(a.poly*c-p)*c
                    if a in rhs.fv or a in all_atoms(rhs) or a in mp: continue
                    mp[a]=rhs; break
    return mp
def prove_deep(facts,goal):
    if goal is TRUE: return True
    if goal.k=='and': return all(prove_deep(facts,g) for g in goal.a)
    if prove(facts,goal): return True
    g=goal; fl=facts
    for _ in range(2):
        polys=[g]+[f for f in fl.l if f.k!='forall']
        mp=cut_split(fl,polys)
        if mp:
            g=subst(g,mp); fl=Facts((),fl.axioms).add(*([subst(f,mp) if f.k!='forall' else f for f in fl.l]+[EQ(a.poly,q) for a,q in mp.items()]))
            if prove(fl,g): return True
        mp=unit_facts(fl,[g] if g is not FALSE else [f for f in fl.l if f.k!='forall'])
        if mp:
            g=subst(g,mp); fl=fl.add(*[subst(f,mp) for f in fl.l if f.k!='forall'])
            if prove(fl,g): return True
        mp=eq_facts(fl)
        if mp:
            g2=subst(g,mp)
            if g2 is not g:
                fl2=fl.add(*[subst(f,mp) for f in fl.l if f.k!='forall'])
                if prove(fl2,g2): return True
        if not mp: break
    if goal is not FALSE and goal.k!='or' and not any(f.k=='forall' for f in facts.l):
        return prove_deep(facts.add(Not(goal)),FALSE)
    return False
