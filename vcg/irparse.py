"""Reader for the textual LLVM IR that clang produces from the sources in /repo.

Only the index of `define` lines is built eagerly; bodies are parsed on demand.
The representation is deliberately small:

  Type   : ('i',bits) ('f',bits) ('ptr',) ('struct',name) ('lit',[types]) ('arr',n,ty) ('void',)
  Value  : ('reg',name) ('int',k,ty) ('fp',Fraction|'nan'|'inf') ('null',) ('undef',) ('glob',name)
           ('bool',b) ('zero',) ('cgep',base,offset)
  Instr  : object with .op, .res, .ty and op specific fields
"""
import re, struct as _struct
from fractions import Fraction

class IRError(Exception):
    pass

TOK = re.compile(r'''\s*(
   "(?:[^"\\]|\\.)*"            |
   [%@!][-a-zA-Z$._0-9]+        |
   [%@]"(?:[^"\\]|\\.)*"        |
   c"(?:[^"\\]|\\.)*"           |
   [-+]?\d+\.\d+(?:e[-+]?\d+)?  |
   0x[0-9A-Fa-fKMLHR]+            |
   -?\d+                        |
   [a-zA-Z_][a-zA-Z0-9_.]*      |
   \.\.\.                       |
   [\[\]{}<>(),=*:#!|]
   )''', re.X)

def tokenize(s):
    out = []; i = 0; n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == '': break
            raise IRError('token? ' + s[i:i+60])
        out.append(m.group(1)); i = m.end()
    return out

ATTRS = set('''noundef nonnull noalias nocapture readonly readnone writeonly signext zeroext inreg
 returned immarg nofree nest swiftself noinline dead_on_unwind writable nsz nnan ninf arcp contract afn reassoc fast
 nsw nuw exact inbounds tail musttail notail volatile dso_local unnamed_addr local_unnamed_addr
 linkonce_odr available_externally internal weak_odr private external hidden protected default linkonce weak inrange
 mustprogress cold disjoint nneg allocptr'''.split())

class Instr:
    __slots__ = ('op','res','ty','a','text')
    def __init__(s, op, res, ty, a, text):
        s.op=op; s.res=res; s.ty=ty; s.a=a; s.text=text
    def __repr__(s): return s.text

class Block:
    def __init__(s, name): s.name=name; s.phis=[]; s.ins=[]; s.term=None
    def succs(s):
        t=s.term
        if t.op=='br': return [t.a[0]]
        if t.op=='condbr': return [t.a[1],t.a[2]]
        if t.op=='switch': return [t.a[1]]+[l for _,l in t.a[2]]
        return []

class Function:
    def __init__(s, name): s.name=name; s.params=[]; s.blocks={}; s.order=[]; s.entry=None; s.retty=None; s.loops=None

class P:
    """token cursor"""
    def __init__(s, toks, mod): s.t=toks; s.i=0; s.m=mod
    def peek(s,k=0): return s.t[s.i+k] if s.i+k < len(s.t) else None
    def next(s): x=s.t[s.i]; s.i+=1; return x
    def eat(s,x):
        if s.peek()==x: s.i+=1; return True
        return False
    def expect(s,x):
        if not s.eat(x): raise IRError('expected %s got %s in %s'%(x,s.peek(),' '.join(s.t)))
    def skip_attrs(s):
        while True:
            p=s.peek()
            if p in ATTRS: s.i+=1
            elif p in ('align','dereferenceable','dereferenceable_or_null','sret','byval','range','addrspace','captures','memory','elementtype','allocalign','initializes','nofpclass'):
                s.i+=1
                if s.peek()=='(':
                    d=0
                    while True:
                        x=s.next()
                        if x=='(': d+=1
                        elif x==')':
                            d-=1
                            if d==0: break
                else: s.i+=1
            elif p=='#' :
                s.i+=2
            else: break
    def type(s):
        t=s.next()
        if re.fullmatch(r'i\d+',t): ty=('i',int(t[1:]))
        elif t=='ptr': ty=('ptr',)
        elif t=='void': ty=('void',)
        elif t=='double': ty=('f',64)
        elif t=='float': ty=('f',32)
        elif t=='x86_fp80': ty=('f',80)
        elif t=='metadata': ty=('meta',)
        elif t=='label': ty=('label',)
        elif t=='...': ty=('vararg',)
        elif t[0]=='%': ty=('struct',t[1:].strip('"'))
        elif t=='{':
            l=[]
            while not s.eat('}'):
                l.append(s.type()); s.eat(',')
            ty=('lit',tuple(l))
        elif t=='[':
            n=int(s.next()); s.expect('x'); e=s.type(); s.expect(']'); ty=('arr',n,e)
        elif t=='<':
            if s.peek()=='{':
                ty=s.type(); s.expect('>'); ty=('packed',)+ty[1:]
            else:
                n=int(s.next()); s.expect('x'); e=s.type(); s.expect('>'); ty=('vec',n,e)
        elif t=='opaque': ty=('opaque',)
        else: raise IRError('type? '+t+' in '+' '.join(s.t))
        while s.peek()=='(':   # function type
            s.next(); l=[]
            while not s.eat(')'):
                l.append(s.type()); s.skip_attrs(); s.eat(',')
            ty=('fn',ty,tuple(l))
        return ty
    def value(s,ty):
        t=s.next()
        if t[0]=='%': return ('reg',t[1:].strip('"'))
        if t[0]=='@': return ('glob',t[1:].strip('"'))
        if t in('true','false'): return ('bool',t=='true')
        if t=='null': return ('null',)
        if t in('undef','poison'): return ('undef',)
        if t in('zeroinitializer',): return ('zero',)
        if t[0]=='!': return ('meta',)
        if t=='getelementptr':
            s.skip_attrs(); s.expect('('); bty=s.type(); s.expect(',')
            s.type(); base=s.value(('ptr',)); idx=[]
            while s.eat(','):
                s.skip_attrs(); it=s.type(); idx.append((it,s.value(it)))
            s.expect(')')
            return ('cgep',bty,base,idx)
        if t in('c',) or t.startswith('c"'): return ('str',t)
        if t in('inttoptr','ptrtoint','bitcast'):
            s.expect('('); a=s.type(); v=s.value(a); s.expect('to'); s.type(); s.expect(')'); return v
        if t in ('{','[','<'):
            close={'{':'}','[':']','<':'>'}[t]; l=[]
            while not s.eat(close):
                et=s.type(); l.append(s.value(et)); s.eat(',')
            return ('agg',l)
        if ty[0]=='f':
            if t.startswith('0x'):
                h=t[2:]
                if h[0] in 'KMLHR': return ('fpx',t)
                d=_struct.unpack('>d',bytes.fromhex(h.rjust(16,'0')))[0]
                if d!=d: return ('fpx','nan')
                if d in (float('inf'),float('-inf')): return ('fpx','inf' if d>0 else '-inf')
                return ('fp',Fraction(d))
            return ('fp',Fraction(float(t)))
        try: return ('int',int(t))
        except ValueError: raise IRError('value? '+t+' in '+' '.join(s.t))
    def tval(s):
        ty=s.type(); s.skip_attrs(); return ty,s.value(ty)

class Module:
    def __init__(s, path):
        s.path=path; s.structs={}; s.defs={}; s.decls=set(); s.globals={}; s.cache={}
        cur=None; lines=open(path).read().split('\n'); i=0
        s.lines=lines
        while i<len(lines):
            l=lines[i]
            if l.startswith('define'):
                m=re.search(r'@("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)\(',l); name=m.group(1).strip('"'); j=i
                while lines[j]!='}': j+=1
                s.defs[name]=(i,j); i=j
            elif l.startswith('declare'):
                m=re.search(r'@("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)\(',l); s.decls.add(m.group(1).strip('"'))
            elif l.startswith('%'):
                m=re.match(r'%("[^"]*"|[-a-zA-Z$._0-9]+) = type (.*)$',l)
                if m: s.structs[m.group(1).strip('"')]=m.group(2)
            elif l.startswith('@'):
                m=re.match(r'@("[^"]*"|[-a-zA-Z$._0-9]+) = (.*)$',l)
                if m: s.globals[m.group(1).strip('"')]=m.group(2)
            i+=1
        s.stypes={}
    def struct_type(s,name):
        if name not in s.stypes:
            txt=s.structs.get(name)
            if txt is None: raise IRError('unknown struct '+name)
            s.stypes[name]=P(tokenize(txt),s).type()
        return s.stypes[name]
    def align(s,ty):
        k=ty[0]
        if k=='i': return max(1,(ty[1]+7)//8) if ty[1]<=64 else 16
        if k=='f': return 16 if ty[1]==80 else ty[1]//8
        if k=='ptr': return 8
        if k=='struct': return s.align(s.struct_type(ty[1]))
        if k=='lit': return max([s.align(t) for t in ty[1]] or [1])
        if k=='packed': return 1
        if k=='arr': return s.align(ty[2])
        if k=='vec': return s.size(ty)
        raise IRError('align '+str(ty))
    def size(s,ty):
        k=ty[0]
        if k=='i':
            b=(ty[1]+7)//8
            a=1
            while a<b: a*=2
            return a
        if k=='f': return 16 if ty[1]==80 else ty[1]//8
        if k=='ptr': return 8
        if k=='struct': return s.size(s.struct_type(ty[1]))
        if k=='arr': return ty[1]*s.size(ty[2])
        if k=='vec': return ty[1]*s.size(ty[2])
        if k in('lit','packed'):
            o=0
            for t in ty[1]:
                a=1 if k=='packed' else s.align(t)
                o=(o+a-1)//a*a+s.size(t)
            a=s.align(ty); return (o+a-1)//a*a
        raise IRError('size '+str(ty))
    def field(s,ty,n):
        """offset and type of field n"""
        if ty[0]=='struct': ty=s.struct_type(ty[1])
        if ty[0]=='arr' or ty[0]=='vec': return n*s.size(ty[2]),ty[2]
        o=0
        for k,t in enumerate(ty[1]):
            a=1 if ty[0]=='packed' else s.align(t)
            o=(o+a-1)//a*a
            if k==n: return o,t
            o+=s.size(t)
        raise IRError('field')
    def resolve(s,ty):
        return s.struct_type(ty[1]) if ty[0]=='struct' else ty
    def function(s,name):
        if name in s.cache: return s.cache[name]
        i,j=s.defs[name]; f=Function(name); f.module=s
        hdr=s.lines[i]
        m=re.search(r'@("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)\(',hdr)
        pre=hdr[len('define'):m.start()]; p=P(tokenize(pre),s); p.skip_attrs()
        f.retty=p.type()
        d=0; k=m.end()-1; e=k
        while True:
            c=hdr[e]
            if c=='"':
                e=hdr.index('"',e+1)
            elif c=='(' : d+=1
            elif c==')':
                d-=1
                if d==0: break
            e+=1
        p=P(tokenize(hdr[k+1:e]),s)
        while p.peek() is not None:
            if p.eat('...'): break
            ty=p.type(); st=p.i; p.skip_attrs(); attrs=p.t[st:p.i]
            nm=p.next()[1:].strip('"') if p.peek() and p.peek()[0]=='%' else str(len(f.params))
            f.params.append((nm,ty,attrs)); p.eat(',')
        cur=None
        k=i+1
        while k<j:
            l=s.lines[k]
            c=l.find(' ; ')
            if c>=0 and '"' not in l[c:]: l=l[:c]
            l=l.rstrip(); k+=1
            if not l.strip(): continue
            m=re.match(r'^("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+):',l)
            if m:
                cur=Block(m.group(1).strip('"')); f.blocks[cur.name]=cur; f.order.append(cur.name)
                continue
            if cur is None:
                cur=Block('entry'); f.blocks['entry']=cur; f.order.append('entry')
            if l.strip().startswith('switch') and '[' in l and ']' not in l:
                while ']' not in s.lines[k]: l+=' '+s.lines[k]; k+=1
                l+=' '+s.lines[k]; k+=1
            ins=s.parse_instr(l.strip())
            if ins is None: continue
            if ins.op=='phi': cur.phis.append(ins)
            elif ins.op in('br','condbr','ret','unreachable','switch'): cur.term=ins
            else: cur.ins.append(ins)
        f.entry=f.order[0]
        s.cache[name]=f
        return f
    def parse_instr(s,l):
        text=l
        l=re.sub(r', !.*$','',l)
        p=P(tokenize(l),s); res=None
        if p.peek(1)=='=' :
            res=p.next()[1:].strip('"'); p.next()
        op=p.next()
        while op in('tail','musttail','notail'): op=p.next()
        mk=lambda o,ty,*a: Instr(o,res,ty,a,text)
        if op=='phi':
            p.skip_attrs(); ty=p.type(); inc=[]
            while p.peek()=='[':
                p.next(); v=p.value(ty); p.expect(','); b=p.next()[1:].strip('"'); p.expect(']'); inc.append((v,b)); p.eat(',')
            return mk('phi',ty,inc)
        if op=='br':
            if p.peek()=='label': p.next(); return mk('br',None,p.next()[1:].strip('"'))
            p.type(); c=p.value(('i',1)); p.expect(','); p.expect('label'); a=p.next()[1:].strip('"'); p.expect(','); p.expect('label'); b=p.next()[1:].strip('"')
            return mk('condbr',None,c,a,b)
        if op=='switch':
            ty=p.type(); v=p.value(ty); p.expect(','); p.expect('label'); d=p.next()[1:].strip('"'); p.expect('['); cs=[]
            while not p.eat(']'):
                t=p.type(); c=p.value(t); p.expect(','); p.expect('label'); cs.append((c,p.next()[1:].strip('"')))
            return mk('switch',ty,v,d,cs)
        if op=='ret':
            ty=p.type()
            if ty==('void',): return mk('ret',ty,None)
            return mk('ret',ty,p.value(ty))
        if op=='unreachable': return mk('unreachable',None)
        if op=='alloca':
            ty=p.type(); n=None
            if p.eat(',') and p.peek()!='align':
                t=p.type(); n=p.value(t)
            return mk('alloca',ty,n)
        if op=='load':
            p.skip_attrs(); ty=p.type(); p.expect(','); p.type(); return mk('load',ty,p.value(('ptr',)))
        if op=='store':
            p.skip_attrs(); ty=p.type(); v=p.value(ty); p.expect(','); p.type(); return mk('store',ty,v,p.value(('ptr',)))
        if op=='getelementptr':
            p.skip_attrs(); ty=p.type(); p.expect(','); p.type(); b=p.value(('ptr',)); idx=[]
            while p.eat(','):
                it=p.type(); idx.append((it,p.value(it)))
            return mk('gep',ty,b,idx)
        if op in('icmp','fcmp'):
            p.skip_attrs()
            pred=p.next(); ty=p.type(); a=p.value(ty); p.expect(','); return mk(op,ty,pred,a,p.value(ty))
        if op in('add','sub','mul','sdiv','udiv','srem','urem','shl','lshr','ashr','and','or','xor','fadd','fsub','fmul','fdiv','frem'):
            p.skip_attrs(); ty=p.type(); a=p.value(ty); p.expect(','); return mk(op,ty,a,p.value(ty))
        if op=='fneg':
            p.skip_attrs(); ty=p.type(); return mk(op,ty,p.value(ty))
        if op in('sext','zext','trunc','sitofp','uitofp','fptosi','fptoui','bitcast','ptrtoint','inttoptr','fpext','fptrunc'):
            p.skip_attrs(); ty=p.type(); v=p.value(ty); p.expect('to'); t2=p.type(); return mk('cast',t2,op,ty,v)
        if op=='freeze':
            ty=p.type(); return mk('freeze',ty,p.value(ty))
        if op=='select':
            p.skip_attrs(); p.type(); c=p.value(('i',1)); p.expect(','); ty=p.type(); a=p.value(ty); p.expect(','); p.type(); return mk('select',ty,c,a,p.value(ty))
        if op=='extractvalue':
            ty=p.type(); v=p.value(ty); idx=[]
            while p.eat(','): idx.append(int(p.next()))
            return mk('extractvalue',ty,v,idx)
        if op=='insertvalue':
            ty=p.type(); v=p.value(ty); p.expect(','); t2=p.type(); e=p.value(t2); idx=[]
            while p.eat(','): idx.append(int(p.next()))
            return mk('insertvalue',ty,v,e,idx,t2)
        if op=='call':
            p.skip_attrs(); ty=p.type(); 
            rt=ty[1] if ty[0]=='fn' else ty
            if p.peek()=='asm': return mk('asm',rt)
            cal=p.value(('ptr',)); p.expect('('); args=[]
            while not p.eat(')'):
                t=p.type(); p.skip_attrs()
                if t==('meta',):
                    while p.peek() not in(',',')'): p.next()
                    v=('meta',)
                else: v=p.value(t)
                args.append((t,v)); p.eat(',')
            return mk('call',rt,cal,args)
        if op=='fence': return None
        if op in('atomicrmw','cmpxchg','va_arg','extractelement','insertelement','shufflevector'): return mk('unsupported',None)
        raise IRError('instr? '+text)

# ---------------------------------------------------------------- loops
class Loop:
    def __init__(s,h): s.header=h; s.blocks={h}; s.latches=[]; s.parent=None; s.depth=0

def find_loops(f):
    if f.loops is not None: return f.loops
    order=f.order; pred={b:[] for b in order}
    # reachable
    seen=set(); st=[f.entry]
    while st:
        b=st.pop()
        if b in seen: continue
        seen.add(b); st+=f.blocks[b].succs()
    for b in seen:
        for t in f.blocks[b].succs(): pred[t].append(b)
    dom={b:set(seen) for b in seen}; dom[f.entry]={f.entry}
    ch=True
    while ch:
        ch=False
        for b in order:
            if b not in seen or b==f.entry: continue
            ps=[dom[p] for p in pred[b] if p in seen]
            n=set.intersection(*ps)|{b} if ps else {b}
            if n!=dom[b]: dom[b]=n; ch=True
    loops={}
    for b in seen:
        for t in f.blocks[b].succs():
            if t in dom[b]:
                L=loops.setdefault(t,Loop(t)); L.latches.append(b)
                st=[b]
                while st:
                    x=st.pop()
                    if x in L.blocks: continue
                    L.blocks.add(x); st+=[q for q in pred[x] if q in seen]
    f.loops=loops; f.pred=pred
    return loops

if __name__=='__main__':
    import sys
    m=Module(sys.argv[1])
    n=0
    for name in m.defs:
        f=m.function(name); find_loops(f); n+=1
    print(n,'functions parsed')
