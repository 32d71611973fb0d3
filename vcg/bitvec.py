"""Bit-precise symbolic execution of the same LLVM IR, for code whose meaning is its bits (the random number generator).

Integers are z3 bit vectors (Python integers when constant); floating values are exact dyadic rationals n*2^e with n a
bit vector below 2^k, and any operation that could round is refused.  Control flow is followed exactly: loops whose
condition is concrete run to their end, a symbolic condition splits the path.  Every stored word gets a name (`let`), and
equal words get the same name: a word defined by the code and one defined by the reference are identified when z3 proves
their definitions equal over names already identified.  Callees with a contract are replaced by it; others are inlined."""
import re,random
from fractions import Fraction
import z3
from symexec import Unsupported,Failed,demangle
MASK=lambda w:(1<<w)-1
class Names:
    def __init__(s,ex,samples=3):
        s.ex=ex; s.rnd=random.Random(12345); s.k=samples; s.val={}; s.defn={}; s.table={}; s.n=0; s.order=[]; s.inputs=[]; s.cache={}
    def fresh(s,name,w,special=None):
        v=z3.BitVec(name,w); s.inputs.append(v)
        s.val[v.get_id()]=tuple([0,MASK(w)][i] if special and i<2 else s.rnd.getrandbits(w) for i in range(s.k)); return v
    def vars(s,e):
        key=e.get_id()
        if key in s.cache: return s.cache[key][1]
        out={}; seen=set(); st=[e]
        while st:
            x=st.pop(); i=x.get_id()
            if i in seen: continue
            seen.add(i)
            if z3.is_const(x):
                if x.decl().kind()==z3.Z3_OP_UNINTERPRETED: out[i]=x
            else: st+=x.children()
        s.cache[key]=(e,list(out.values())); return s.cache[key][1]
    def sample(s,e,i):
        vs=s.vars(e)
        r=z3.simplify(z3.substitute(e,*[(v,z3.BitVecVal(s.val[v.get_id()][i],v.size())) for v in vs])) if vs else z3.simplify(e)
        if z3.is_bv_value(r): return r.as_long()
        if z3.is_true(r): return 1
        if z3.is_false(r): return 0
        raise Unsupported('sample')
    def sig(s,e): return (e.size(),)+tuple(s.sample(e,i) for i in range(s.k))
    def cone(s,e,stop):
        """definitions needed to express e over names in stop"""
        out=[]; seen=set(); st=list(s.vars(e))
        while st:
            v=st.pop(); i=v.get_id()
            if i in seen or i in stop or i not in s.defn: continue
            seen.add(i); out.append(v==s.defn[i]); st+=s.vars(s.defn[i])
        return out
    def same(s,e,v):
        d=s.defn.get(v.get_id())
        if d is None: return False
        if d.eq(e): return True
        stop={x.get_id() for x in s.vars(d)}
        so=z3.Solver(); so.set('timeout',20000); so.add(d!=e,*s.cone(e,stop))
        return s.ex.query(so)==z3.unsat
    def let(s,e,name='t'):
        if isinstance(e,int): return e
        if z3.is_bv_value(e): return e.as_long()
        if z3.is_const(e): return e
        g=s.sig(e)
        for v in s.table.get(g,[]):
            if s.same(e,v): return v
        s.n+=1; v=z3.BitVec('%s!%d'%(name,s.n),e.size()); s.defn[v.get_id()]=e; s.order.append(v); s.val[v.get_id()]=g[1:]
        s.table.setdefault(g,[]).append(v); return v
class State:
    def __init__(s): s.mem={}; s.fresh={}; s.pc=[]; s.events=[]
    def copy(s):
        t=State(); t.mem={k:dict(v) for k,v in s.mem.items()}; t.pc=list(s.pc); t.events=list(s.events); return t
class Dy:
    """n * 2^e exactly, n (a bit vector read as unsigned, or a Python integer) below 2^k"""
    def __init__(s,n,e,k): s.n=n; s.e=e; s.k=k
def isc(x): return isinstance(x,int)
def bv(x,w): return z3.BitVecVal(x,w) if isc(x) else x
def sgn(x,w): return x-(1<<w) if x>>(w-1) else x
class Bits:
    def __init__(s,c,contracts=()):
        s.c=c; s.ex=c.ex; s.prog=c.ex.prog; s.contracts=list(contracts); s.steps=0; s.N=Names(s); s.alloc=0
    def query(s,so):
        import prover,time
        t=time.time(); r=so.check(); prover.STATS.queries+=1; prover.STATS.t+=time.time()-t; return r
    def prove(s,st,f,name):
        f=f if isinstance(f,bool) else z3.simplify(f)
        if f is True or (not isinstance(f,bool) and z3.is_true(f)): s.log(name,True,'syntactic'); return
        so=z3.Solver(); so.set('timeout',60000)
        if f is not False: so.add(*st.pc); so.add(z3.Not(f)); so.add(*[x for g in [f]+st.pc for x in s.N.cone(g,set())])
        else: so.add(*st.pc)
        r=s.query(so); ok=r==z3.unsat; s.log(name,ok,'z3')
        if not ok:
            m=''
            if r==z3.sat:
                mo=so.model(); m='counterexample: '+', '.join('%s=%s'%(d.name(),mo[d]) for d in mo.decls() if '!' not in d.name())[:800]
            raise Failed(name,m or 'undecided')
    def log(s,name,ok,by='z3'):
        import prover
        prover.STATS.hit(by); s.ex.log(name,ok,by)
    def feasible(s,st,f):
        f=z3.simplify(f)
        if z3.is_true(f): return True
        if z3.is_false(f): return False
        so=z3.Solver(); so.set('timeout',20000); so.add(*st.pc); so.add(f); so.add(*[x for g in st.pc+[f] for x in s.N.cone(g,set())])
        return s.query(so)!=z3.unsat
    # -------------------------------------------------------------- values
    def simp(s,e):
        e=z3.simplify(e)
        return e.as_long() if z3.is_bv_value(e) else e
    def binop(s,op,w,a,b,text,st):
        if isc(a) and isc(b):
            A,B=sgn(a,w),sgn(b,w)
            if op in('sdiv','udiv','srem','urem') and b==0: raise Failed('division by zero')
            r={'add':lambda:a+b,'sub':lambda:a-b,'mul':lambda:a*b,'and':lambda:a&b,'or':lambda:a|b,'xor':lambda:a^b,'shl':lambda:a<<b if b<w else 0,'lshr':lambda:a>>b,'ashr':lambda:A>>b,
               'udiv':lambda:a//b,'urem':lambda:a%b,'sdiv':lambda:abs(A)//abs(B)*(1 if A*B>=0 else -1),'srem':lambda:abs(A)%abs(B)*(1 if A>=0 else -1)}[op]()
            return r&MASK(w)
        x,y=bv(a,w),bv(b,w)
        if op in('shl','lshr','ashr'): s.prove(st,z3.ULT(y,w) if not isc(b) else b<w,'shift by less than the width')
        if op in('udiv','urem','sdiv','srem'): s.prove(st,y!=0 if not isc(b) else b!=0,'division by zero')
        if ' nsw ' in text and op in('add','sub','mul'):
            E=lambda t: z3.SignExt(w,t)
            full={'add':E(x)+E(y),'sub':E(x)-E(y),'mul':E(x)*E(y)}[op]; r={'add':x+y,'sub':x-y,'mul':x*y}[op]
            s.prove(st,full==E(r),'signed arithmetic does not overflow')
        r={'add':lambda:x+y,'sub':lambda:x-y,'mul':lambda:x*y,'and':lambda:x&y,'or':lambda:x|y,'xor':lambda:x^y,'shl':lambda:x<<y,'lshr':lambda:z3.LShR(x,y),'ashr':lambda:x>>y,
           'udiv':lambda:z3.UDiv(x,y),'urem':lambda:z3.URem(x,y),'sdiv':lambda:x/y,'srem':lambda:z3.SRem(x,y)}[op]()
        return s.simp(r)
    def icmp(s,pred,w,a,b):
        if isc(a) and isc(b):
            A,B=sgn(a,w),sgn(b,w)
            return int({'eq':a==b,'ne':a!=b,'ult':a<b,'ule':a<=b,'ugt':a>b,'uge':a>=b,'slt':A<B,'sle':A<=B,'sgt':A>B,'sge':A>=B}[pred])
        x,y=bv(a,w),bv(b,w)
        r=z3.simplify({'eq':lambda:x==y,'ne':lambda:x!=y,'ult':lambda:z3.ULT(x,y),'ule':lambda:z3.ULE(x,y),'ugt':lambda:z3.UGT(x,y),'uge':lambda:z3.UGE(x,y),
           'slt':lambda:x<y,'sle':lambda:x<=y,'sgt':lambda:x>y,'sge':lambda:x>=y}[pred]())
        if z3.is_true(r): return 1
        if z3.is_false(r): return 0
        return s.simp(z3.If(r,z3.BitVecVal(1,1),z3.BitVecVal(0,1)))
    def ite(s,c,a,b,w):
        if isc(c): return a if c else b
        return s.simp(z3.If(c==1,bv(a,w),bv(b,w)))
    def fits(s,st,n,k,what):
        """n below 2^k: shown, never assumed"""
        if isc(n): return n<(1<<k)
        if n.size()<=k: return True
        f=z3.simplify(z3.ULT(n,z3.BitVecVal(1<<k,n.size())))
        if z3.is_true(f): return True
        so=z3.Solver(); so.set('timeout',20000); so.add(*st.pc); so.add(z3.Not(f)); so.add(*s.N.cone(f,set()))
        return s.query(so)==z3.unsat
    def tofp(s,st,n,w,signed):
        if isc(n):
            v=sgn(n,w) if signed else n
            return Fraction(v)
        if signed: s.prove(st,n>=0,'converted integer is not negative')
        for k in range(1,w+1):
            if k in(8,16,20,23,24,25,30,31,32,33,40,48,50,51,52,53,54,55,56,60,62,63,64,w) and s.fits(st,n,k,''): break
        if k>53: raise Failed('integer is exact as a double','it has %d bits'%k)
        s.log('integer is exact as a double',True); return Dy(n,0,k)
    def fmul(s,a,b):
        if isinstance(a,Fraction) and isinstance(b,Fraction):
            return Fraction(float(a)*float(b))
        if isinstance(b,Dy): a,b=b,a
        if isinstance(b,Fraction) and b>0:
            e=0; q=b
            while q.denominator>1 and e>-1100: q*=2; e-=1
            if q.denominator==1:
                q=q.numerator
                while q%2==0: q//=2; e+=1
                if q==1: s.log('product by a power of two is exact',True); return Dy(a.n,a.e+e,a.k)
        raise Failed('product is exact','factor %s'%(b if isinstance(b,Fraction) else '?'))
    def fop(s,op,a,b):
        if isinstance(a,Fraction) and isinstance(b,Fraction):
            x,y=float(a),float(b); return Fraction({'fadd':lambda:x+y,'fsub':lambda:x-y,'fmul':lambda:x*y,'fdiv':lambda:x/y}[op]())
        if op=='fmul': return s.fmul(a,b)
        if op=='fdiv' and isinstance(b,Fraction): 
            inv=1/b
            if inv.denominator&(inv.denominator-1)==0: return s.fmul(a,inv)
        if op=='fadd' and isinstance(a,Dy) and isinstance(b,Fraction): a,b=b,a
        if op=='fadd' and isinstance(b,Dy) and isinstance(a,Fraction) and a>=0:
            e=b.e; q=a
            while (q/Fraction(2)**e).denominator>1: e-=1
            kk=b.k+(b.e-e); add=int(q/Fraction(2)**e); k2=max(kk,add.bit_length())+1
            if k2<=53:
                w=64; n=z3.ZeroExt(max(0,w-b.n.size()),b.n); n=s.simp((n<<(b.e-e))+add); s.log('sum is exact',True); return Dy(n,e,k2)
        raise Failed('floating point operation is exact',op)
    def value(s,x,ty,env,mod,st):
        k=x[0]
        if k=='reg': return env[x[1]]
        if k=='int': return x[1]&MASK(ty[1])
        if k=='bool': return int(x[1])
        if k=='fp': return x[1]
        if k=='null': return ('ptr',None,0)
        if k=='glob': return ('ptr',(mod.path,x[1]) if x[1] in mod.globals else ('ext',x[1]),0)
        if k=='zero': return 0 if ty[0]=='i' else Fraction(0)
        if k=='undef': return None
        if k=='cgep': return s.gep(x[1],s.value(x[2],('ptr',),env,mod,st),[(t,s.value(v,t,env,mod,st)) for t,v in x[3]],mod)
        if k=='meta': return None
        raise Unsupported('value '+str(x))
    def gep(s,ty,p,idx,mod):
        if not(isinstance(p,tuple) and p[0]=='ptr'): raise Unsupported('pointer')
        off=p[2]; t=('arr',0,ty)
        for n,(it,v) in enumerate(idx):
            w=it[1]
            r=mod.resolve(t) if t[0]=='struct' else t
            if r[0] in('arr','vec'):
                sz=mod.size(r[2])
                if isc(v): off=off+sgn(v,w)*sz if isc(off) else s.simp(off+z3.BitVecVal(sgn(v,w)*sz,64))
                else:
                    v=v if w==64 else z3.SignExt(64-w,v); off=s.simp(bv(off&MASK(64) if isc(off) else off,64)+v*sz)
                t=r[2]
            else:
                o,t=mod.field(t,v); off=off+o if isc(off) else s.simp(off+o)
        return ('ptr',p[1],off)
    def initial(s,key):
        mod=[m for m in s.prog.mods if m.path==key[0]]
        if not mod: raise Unsupported('external object '+str(key))
        m=mod[0]; txt=m.globals[key[1]]
        g=re.match(r'(?:.*? )?(global|constant) (.*)$',txt); body=g.group(2)
        cells={}
        a=re.match(r'\[(\d+) x i(\d+)\] (zeroinitializer|\[(.*?)\])',body); b=re.match(r'i(\d+) (-?\d+)',body)
        if a:
            n,w=int(a.group(1)),int(a.group(2))
            vs=[0]*n if a.group(3)=='zeroinitializer' else [int(x.split()[1])&MASK(w) for x in a.group(4).split(',')]
            for i,v in enumerate(vs): cells[i*w//8]=(w//8,v)
        elif b: w=int(b.group(1)); cells[0]=(max(1,w//8),int(b.group(2))&MASK(w))
        else: raise Unsupported('initial value of '+key[1])
        return cells
    def obj(s,st,key):
        if key not in st.mem:
            if key is None: raise Failed('null pointer')
            st.mem[key]=s.initial(key)
        return st.mem[key]
    def load(s,st,p,size,w):
        o=s.obj(st,p[1]); off=p[2]
        if isc(off):
            if off not in o or o[off][0]!=size: raise Failed('load inside the object',str((p[1],off,size)))
            return o[off][1]
        s.prove(st,z3.Or([off==k for k in o]),'load inside the object')
        ks=sorted(o); r=bv(o[ks[-1]][1],w)
        if len(ks)>64: raise Unsupported('symbolic index')
        for k in reversed(ks[:-1]): r=z3.If(off==k,bv(o[k][1],w),r)
        return s.simp(r)
    def store(s,st,p,size,v):
        o=s.obj(st,p[1])
        if not isc(p[2]): raise Unsupported('store at a symbolic index')
        if p[2] not in o or o[p[2]][0]!=size: raise Failed('store inside the object',str((p[1],p[2],size)))
        o[p[2]]=(size,v if isinstance(v,(tuple,Dy,Fraction)) or v is None else s.N.let(v))
    # -------------------------------------------------------------- execution
    def find(s,name,mod=None):
        if mod is not None and name in mod.defs: return mod
        return s.prog.where.get(name)
    def call(s,st,name,args,mod=None,depth=0):
        """[(state, value)] of a call"""
        dm=demangle(name)
        for pat,fn in s.contracts:
            if re.fullmatch(pat,dm): s.ex.used_contracts.add(name); return fn(s,st,args)
        if name.startswith('llvm.lifetime') or name.startswith('llvm.assume'): return [(st,None)]
        m=s.find(name,mod)
        if m is None or 'available_externally' in m.lines[m.defs[name][0]]: raise Unsupported('call of '+dm)
        if depth>30: raise Unsupported('call depth')
        f=m.function(name); s.ex.inlined.add(name)
        env={}
        for (n,ty,at),v in zip(f.params,args): env[n]=v
        work=[(st,env,f.entry,None,0)]; outs=[]
        while work:
            st,env,blk,prev,at=work.pop()
            while True:
                s.steps+=1
                if s.steps>60000: raise Unsupported('too many steps')
                B=f.blocks[blk]
                if at==0:
                    new={}
                    for ph in B.phis:
                        for v,b in ph.a[0]:
                            if b==prev: new[ph.res]=s.value(v,ph.ty,env,m,st)
                    env.update(new)
                dead=False
                while at<len(B.ins):
                    ins=B.ins[at]; at+=1
                    r=s.step(st,ins,env,m,depth,f)
                    if isinstance(r,list):
                        if not r: dead=True; break
                        for st2,v in r[1:]:
                            e2=dict(env); e2[ins.res]=v; work.append((st2,e2,blk,prev,at))
                        st=r[0][0]
                        if ins.res: env[ins.res]=r[0][1]
                if dead: break
                at=0
                t=B.term
                if t.op=='ret':
                    outs.append((st,None if t.a[0] is None else s.value(t.a[0],t.ty,env,m,st))); break
                if t.op=='br': prev,blk=blk,t.a[0]; continue
                if t.op=='condbr':
                    c=s.value(t.a[0],('i',1),env,m,st)
                    if isc(c): prev,blk=blk,t.a[1] if c else t.a[2]; continue
                    a=s.feasible(st,c==1); b=s.feasible(st,c==0)
                    if a and b:
                        s2=st.copy(); s2.pc.append(c==0); work.append((s2,dict(env),t.a[2],blk,0)); st.pc.append(c==1); prev,blk=blk,t.a[1]; continue
                    if not a and not b: break
                    prev,blk=blk,t.a[1] if a else t.a[2]; continue
                if t.op=='switch':
                    c=s.value(t.a[0],t.ty,env,m,st)
                    if not isc(c): raise Unsupported('switch')
                    d=t.a[1]
                    for v,l in t.a[2]:
                        if s.value(v,t.ty,env,m,st)==c: d=l
                    prev,blk=blk,d; continue
                if t.op=='unreachable': break
                raise Unsupported(t.op)
        return outs
    def step(s,st,i,env,m,depth,f):
        V=lambda x,ty: s.value(x,ty,env,m,st)
        op=i.op
        if op in('add','sub','mul','sdiv','udiv','srem','urem','shl','lshr','ashr','and','or','xor'):
            env[i.res]=s.binop(op,i.ty[1],V(i.a[0],i.ty),V(i.a[1],i.ty),i.text,st)
        elif op=='icmp':
            a,b=V(i.a[1],i.ty),V(i.a[2],i.ty)
            if i.ty[0]=='ptr':
                if i.a[0] not in('eq','ne'): raise Unsupported('pointer comparison')
                e=a==b; env[i.res]=int(e if i.a[0]=='eq' else not e)
            else: env[i.res]=s.icmp(i.a[0],i.ty[1],a,b)
        elif op=='select':
            c=V(i.a[0],('i',1)); a,b=V(i.a[1],i.ty),V(i.a[2],i.ty)
            if isc(c): env[i.res]=a if c else b
            elif i.ty[0]=='i': env[i.res]=s.ite(c,a,b,i.ty[1])
            elif i.ty[0]=='ptr' and a[1]==b[1]: env[i.res]=('ptr',a[1],s.ite(c,a[2],b[2],64))
            else: raise Unsupported('select')
        elif op=='cast':
            k,ty,v=i.a[0],i.a[1],V(i.a[2],i.a[1])
            if k in('zext','sext','trunc'):
                w,w2=ty[1],i.ty[1]
                if isc(v): env[i.res]=(sgn(v,w) if k=='sext' else v)&MASK(w2)
                else: env[i.res]=s.simp(z3.ZeroExt(w2-w,v) if k=='zext' else z3.SignExt(w2-w,v) if k=='sext' else z3.Extract(w2-1,0,v))
            elif k in('uitofp','sitofp'): env[i.res]=s.tofp(st,v,ty[1],k=='sitofp')
            elif k=='fptrunc':
                if isinstance(v,Fraction): import struct; env[i.res]=Fraction(struct.unpack('f',struct.pack('f',float(v)))[0])
                elif s.fits(st,v.n,24,''): s.log('number is exact in single precision',True); env[i.res]=v
                else: raise Failed('number is exact in single precision','it has more than 24 significant bits: rounding may reach the upper end of the range')
            elif k=='fpext': env[i.res]=v
            elif k in('fptosi','fptoui'):
                if isinstance(v,Fraction): env[i.res]=int(v)&MASK(i.ty[1])
                else:
                    w=i.ty[1]; n=bv(v.n,64); n=z3.ZeroExt(max(0,64-n.size()),n)
                    n=z3.LShR(n,-v.e) if v.e<0 else n<<v.e
                    lim=w-(1 if k=='fptosi' else 0)
                    if v.k+v.e>lim and not s.fits(st,s.simp(n),lim,''): raise Failed('conversion to an integer stays in its range')
                    s.log('conversion to an integer stays in its range',True); n=s.simp(n)
                    env[i.res]=n if isc(n) or w==64 else s.simp(z3.Extract(w-1,0,n))
            elif k=='bitcast': env[i.res]=v
            else: raise Unsupported(k)
        elif op in('fadd','fsub','fmul','fdiv'): env[i.res]=s.fop(op,V(i.a[0],i.ty),V(i.a[1],i.ty))
        elif op=='gep': env[i.res]=s.gep(i.ty,V(i.a[0],('ptr',)),[(t,V(v,t)) for t,v in i.a[1]],m)
        elif op=='alloca':
            s.alloc+=1; key=('stack',s.alloc); cells={}
            def lay(ty,o):
                r=m.resolve(ty) if ty[0]=='struct' else ty
                if r[0] in('i','f','ptr'): cells[o]=(m.size(r),None)
                elif r[0]=='arr':
                    for q in range(r[1]): lay(r[2],o+q*m.size(r[2]))
                else:
                    for q in range(len(r[1])):
                        a,t=m.field(r,q); lay(t,o+a)
            lay(i.ty,0); st.mem[key]=cells; env[i.res]=('ptr',key,0)
        elif op=='load':
            w=m.size(i.ty)*8; env[i.res]=s.load(st,V(i.a[0],('ptr',)),m.size(i.ty),w)
            if i.ty[0]=='i' and i.ty[1]<w and not isc(env[i.res]): env[i.res]=s.simp(z3.Extract(i.ty[1]-1,0,env[i.res]))
        elif op=='store':
            v=V(i.a[0],i.ty)
            if i.ty[0]=='i' and i.ty[1]<8 and not isc(v): v=z3.ZeroExt(8-i.ty[1],v)
            s.store(st,V(i.a[1],('ptr',)),m.size(i.ty),v)
        elif op=='freeze': env[i.res]=V(i.a[0],i.ty)
        elif op=='insertvalue':
            a=V(i.a[0],i.ty); l=list(a) if isinstance(a,list) else [None]*len(m.resolve(i.ty)[1]); l[i.a[2][0]]=V(i.a[1],i.a[3]); env[i.res]=l
        elif op=='extractvalue': env[i.res]=V(i.a[0],None)[i.a[1][0]]
        elif op=='call':
            if i.a[0][0]!='glob': raise Unsupported('indirect call')
            return s.call(st,i.a[0][1],[V(v,t) for t,v in i.a[1]],m,depth+1)
        else: raise Unsupported(op)
        return None
