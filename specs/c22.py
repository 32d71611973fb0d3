from spec import *
from blas import PRIMS_IO
import symexec as X
TUS=['@c22','sdf/odata_file.cc','sdf/idata_file.cc','sdf/data_file.cc','sdf/rename_file.cc','tensor/tensor_d.cc','tensor/tensor_z.cc','indices/indices.cc']
# ---------------------------------------------------------------- trusted contracts: strings and streams
class Ghost(Cells):
    """ghost data of a path: strings (address -> length, buffer), the sequence of blocks in the file, reading position, events"""
    def __init__(s,*a): Cells.__init__(s,*a); s.d={}
    def copy(s): g=Ghost(s.id,s.size,s.kind); g.d=dict(s.d); return g
def gh(st): return st.w('ghost').d
def string(c,name,L=None,off=None):
    """a string argument: L characters, none of them NUL"""
    n=c.int(name+'.len',0) if L is None else P(L); st=c.st
    if 'ghost' not in st.mem: st.mem['ghost']=Ghost('ghost',8,'ghost'); gh(st).update(str={},file=(),pos=0,events=())
    st.mem[name+'.chars']=Buf(name+'.chars',1,'char',n+1,init_content(name,'I'),1,ro=True)
    st.facts.axioms[name]=lambda a:[Implies(And(GE(a.args[1],0),LT(a.args[1],n)),NE(a.poly,0)),Implies(EQ(a.args[1],n),EQ(a.poly,0))]
    if off is None: st.mem[name]=Cells(name,32,'param'); p=(name,0)
    else: p=off
    g=gh(st); g['str']={**g['str'],p:(n,name+'.chars')}; return Ptr(p[0],p[1]),n
def sget(st,p):
    k=(p.obj,p.off.const() if p.off.is_const() else None); t=gh(st)['str']
    if k not in t: raise Unsupported('string')
    return t[k]
def sput(st,p,v): g=gh(st); g['str']={**g['str'],(p.obj,p.off.const()):v}
def chars(st,ex,p):
    b=st.mem[p.obj]; i,c=ex.buf_index(b,p.off,1); return b,i
def p_size(ex,st,a,nm): return [(st,'ret',sget(st,a[0])[0])]
def p_at(ex,st,a,nm): n,b=sget(st,a[0]); ex.require(st,And(GE(a[1],0),LE(a[1],n)),'character inside the string'); return [(st,'ret',Ptr(b,a[1]))]
def p_cstr(ex,st,a,nm): return [(st,'ret',Ptr(sget(st,a[0])[1],0))]
def asbytes(st,b):
    w=st.w(b)
    if w.raw: w.raw=None; w.kind='char'
    if w.esz!=1: raise Unsupported('characters')
    return w
def p_strncpy(ex,st,a,nm):
    d,s,n=a; L=[v[0] for v in gh(st)['str'].values() if v[1]==s.obj]
    if not L or s.off!=ZERO: raise Unsupported('strncpy')
    w=asbytes(st,d.obj); ex.check_writable(st,w); ex.require(st,And(GE(n,0),LE(d.off+n,w.n)),'block write inside buffer')
    v=fresh('q'); va=the_atom(v); src=st.mem[s.obj].content; f=st.facts.add(GE(v,0),LT(v,n))
    w.content=Content(w.content,Eff('store',[(va,n)],TRUE,d.off+v,0,Ite(LT(v,L[0]),read_content(ex,f,src,v,0),ZERO))); return [(st,'ret',d)]
def p_fromchars(ex,st,a,nm):
    if isinstance(a[1].obj,str) and a[1].obj.startswith('@'):
        t=lit(ex,a[1]); b=newid('chars'); cont=const_content(ZERO)
        for i,ch in enumerate(t): cont=Content(cont,Eff('store',(),TRUE,P(i),0,P(ord(ch))))
        st.mem[b]=Buf(b,1,'char',P(len(t)+1),cont,1); sput(st,a[0],(P(len(t)),b)); return [(st,'ret',None)]
    w=asbytes(st,a[1].obj); f=st.facts; last=read_content(ex,f,w.content,w.n-1,0)
    ex.require(st,EQ(last,0),'characters end with NUL')
    l=fresh('len'); cont=w.content; rd=lambda ff,q: read_content(ex,ff,cont,q,0)
    at=rd(st.facts.add(GE(l,0),LT(l,w.n)),l); st.assume(GE(l,0),LT(l,w.n),EQ(at,0))
    st.mem['ghost'].d  # the defining facts of the length are kept for the comparison
    b=newid('chars'); st.mem[b]=Buf(b,1,'char',l+1,cont,1); sput(st,a[0],(l,b)); g=gh(st); g['len']={**g.get('len',{}),b:(l,rd)}; return [(st,'ret',None)]
def p_substr(ex,st,a,nm):
    o,s,pos,n=a
    if pos!=ZERO: raise Unsupported('substring')
    L,b=sget(st,s); m=Ite(LT(n,L),n,L); b2=newid('chars'); st.mem[b2]=Buf(b2,1,'char',m+1,st.mem[b].content,1); sput(st,o,(m,b2)); return [(st,'ret',None)]
def differ(ex,st,p,q):
    """TRUE / FALSE when two strings are shown to differ / to be equal"""
    (la,ba),(lb,bb)=sget(st,p),sget(st,q); rd=lambda f,b,i: read_content(ex,f,st.mem[b].content,i,0); f=st.facts; known=gh(st).get('len',{})
    for b,other in((ba,lb),(bb,la)):
        if b in known:
            l,r=known[b]          # no NUL before the end: instances at the other string's length and at its own
            for t in(() if 'ite(' in show(other) else (other,))+tuple(gh(st).get('at',())): 
                h=f.add(GE(t,0),LT(t,l))
                if feasible(h): f=f.add(Implies(And(GE(t,0),LT(t,l)),NE(r(h,t),0)))
    pv=lambda g,ff=None: prove(ff or f,g) or X.prove_deep(ff or f,g)
    if pv(NE(la,lb)): return TRUE
    for t in gh(st).get('at',()):
        if pv(And(LT(t,la),LT(t,lb))) and pv(NE(rd(f,ba,t),rd(f,bb,t))): return TRUE
    if pv(EQ(la,lb)):
        v=fresh('q'); g=f.add(GE(v,0),LT(v,la),LT(v,lb))
        if not feasible(g) or pv(EQ(rd(g,ba,v),rd(g,bb,v)),g): return FALSE
    return None
def p_cmp(neg):
    def g(ex,st,a,nm):
        d=differ(ex,st,a[0],a[1])
        if d is None: d=BApp('strings differ')
        return [(st,'ret',d if neg else Not(d))]
    return g
# the file: write() appends a block, read() consumes the next one; a missing or different block leaves the stream failed
def p_write(ex,st,a,nm):
    s,p,n=a; o=st.mem[p.obj]
    if isinstance(o,Buf) and o.freed: raise Failed('written block is alive')
    b=newid('block'); x=o.copy(); x.id=b
    if isinstance(o,Buf): x.owners=1; x.ro=False; ex.require(st,And(GE(n,0),LE(p.off+n,o.n*o.esz)),'block read inside buffer')
    st.mem[b]=x; g=gh(st); g['file']=g['file']+((b,p.off,n),); g['events']=g['events']+('write',); return [(st,'ret',s)]
def p_read(ex,st,a,nm):
    s,p,n=a; g=gh(st)
    if g['pos']>=len(g['file']) or g.get('failed'): g['failed']=True; return [(st,'ret',s)]
    b,off,m=g['file'][g['pos']]; g['pos']+=1
    ex.require(st,EQ(n,m),'block read as it was written'); d=st.mem[p.obj]
    if isinstance(d,Buf) and isinstance(st.mem[b],Buf) and d.raw and st.mem[b].esz==1: asbytes(st,p.obj)
    ex.memcpy(st,p,Ptr(b,off),n); return [(st,'ret',s)]
def p_fail(ex,st,a,nm): return [(st,'ret',TRUE if gh(st).get('failed') else FALSE)]
def event(e):
    def g(ex,st,a,nm): d=gh(st); d['events']=d['events']+(e,); return [(st,'ret',a[0] if a else None)]
    return g
def nop(ex,st,a,nm): return [(st,'ret',a[0] if a else None)]
STR='std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> >'
PR=[(RX(STR)+'::size\\(\\) const',p_size),(RX(STR)+'::(c_str|data)\\(\\) const',p_cstr),('strncpy',p_strncpy),(RX(STR)+'::basic_string\\(char const\\*, std::allocator<char> const&\\)',p_fromchars),
    (RX(STR)+'::operator\\[\\]\\(unsigned long\\)( const)?',p_at),(RX(STR)+'::substr\\(.*\\) const',p_substr),(RX(STR)+'::~basic_string\\(\\)',nop),('bool std::operator!=<char.*',p_cmp(True)),('bool std::operator==<char.*',p_cmp(False)),('std::allocator<char>::.*|std::__new_allocator<char>::.*',nop),
    ('std::basic_ostream<.*>::write\\(.*',p_write),('std::basic_istream<.*>::read\\(.*',p_read),('std::basic_ios<.*>::(fail|bad)\\(\\) const',p_fail),('std::basic_ostream<.*>::flush\\(\\)',event('flush')),('std::basic_ofstream<.*>::close\\(\\)',event('close')),('sdf::DataFile::tag_to_name\\(unsigned long\\)',nop)]+PRIMS_IO
def S(**v):
    def w(f): g=spec('C22',**v)(f); f.prims=PR; return g
    return w
def files(c):
    for x,n in(('out',632),('in',640)):
        o=Cells(x,n,'param'); c.st.mem[x]=o; o.cells[112]=(1,ONE); o.cells[104]=(4,ONE); o.cells[120]=(8,Ptr('streamvt',24))
    v=c.st.mem['streamvt']=Cells('streamvt',32,'param'); v.cells[0]=(8,ZERO)       # offset of the stream's state (virtual base)
    c.st.mem.setdefault('ghost',Ghost('ghost',8,'ghost')); g=gh(c.st)
    for k,v in(('str',{}),('file',()),('pos',0),('events',())): g.setdefault(k,v)
    return Ptr('out',0),Ptr('in',0)
def read_back(c,st,named,nm,L):
    """the name given when loading: the one stored, or none"""
    return nm if named else None
def chain(c,fn,args,then,expect='return'):
    base=c.st
    for st,r in c.run(fn,args):
        c.st=st; then(st)
    c.st=base
@S(k=['d','z'],named=[0,1])
def tensor(c,k,named):
    """what load() gives back after dump(): the same shape and elements, for every tensor and every name"""
    A=c.tensor('A',k); nm,L=string(c,'name'); empty,_=string(c,'empty',0); out,inn=files(c); T=c.tensor('T',k,1,mode='own')
    c.st.mem['ghost'].d['at']=(L,P(63))
    def then(st):
        for s2,_ in c.run('load_'+k,[inn,T.ptr,nm if named else empty]):
            R=c.tview(s2,T.ptr); R.rank_is(A.r); q=fresh('q'); R.dim(q,A.d(q),[GE(q,0),LT(q,A.r)]); R.elems([A.n],lambda q:q,lambda cc,q:A.at(q,cc),'elements loaded')
            ok=gh(s2)['pos']==len(gh(s2)['file']); c.ex.log('the record is consumed',ok)
            if not ok: raise Failed('the record is consumed')
    chain(c,'dump_'+k,[out,A.ptr,nm],then)
def eof(c,st):
    ok=gh(st)['pos']==len(gh(st)['file']); c.ex.log('the records are consumed',ok)
    if not ok: raise Failed('the records are consumed')
def same(c,st,T,A,what):
    R=c.tview(st,T.ptr); R.rank_is(A.r); q=fresh('q'); R.dim(q,A.d(q),[GE(q,0),LT(q,A.r)]); R.elems([A.n],lambda q:q,lambda cc,q:A.at(q,cc),what)
@S(k=['d','z'],l=['d','z'])
def sequence(c,k,l):
    """two records come back in the order they were stored"""
    A=c.tensor('A',k); B=c.tensor('B',l); n1,L1=string(c,'name'); n2,L2=string(c,'other'); out,inn=files(c); T=c.tensor('T',k,1,mode='own'); U=c.tensor('U',l,mode='shared')
    c.st.mem['ghost'].d['at']=(L1,L2,P(63))
    chain(c,'dump_'+k,[out,A.ptr,n1],lambda s: chain(c,'dump_'+l,[out,B.ptr,n2],lambda s: chain(c,'load_'+k,[inn,T.ptr,n1],lambda s: chain(c,'load_'+l,[inn,U.ptr,n2],lambda s:(same(c,s,T,A,'first record'),same(c,s,U,B,'second record'),eof(c,s))))))
NUM=['real','complex','int','size']
@S(t=NUM,named=[0,1])
def number(c,t,named):
    nm,L=string(c,'name'); empty,_=string(c,'empty',0); out,inn=files(c); c.st.mem['ghost'].d['at']=(L,P(63))
    if t=='complex': v=c.zref('v','z')
    elif t=='real': v=c.real('v')
    else:
        v=c.int('v'); c.assume(*([GE(v,-(1<<31)),LT(v,1<<31)] if t=='int' else [GE(v,0),LE(v,1<<53)]))      # a size is stored as a double
    o=c.st.mem['o']=Cells('o',16,'param')
    def then(st):
        cells=st.mem['o'].cells
        if t=='complex':
            for e in(0,8): c.prove_eq(st,cells[e][1],Var('v.%d'%e,'R'),'number loaded')
        else: c.prove_eq(st,cells[0][1],v,'number loaded')
        eof(c,st)
    chain(c,'dump_'+t,[out,v,nm],lambda s: chain(c,'load_'+t,[inn,Ptr('o',0),nm if named else empty],then))
LOADS=['d','z','real','complex','int','size']
def target(c,t):
    if t in 'dz': return c.tensor('T',t,1,mode='own').ptr
    c.st.mem['o']=Cells('o',16,'param'); return Ptr('o',0)
@S(t=LOADS,named=[0,1])
def missing(c,t,named):
    """no record left"""
    nm,L=string(c,'name') if named else string(c,'empty',0); out,inn=files(c); c.run('load_'+t,[inn,target(c,t),nm],expect='abort')
@S(k=['d','z'],t=LOADS)
def other_type(c,k,t):
    if (k=='d')==(t in('d','real','int','size')): return c.ex.log('compatible types',True)
    A=c.tensor('A',k); nm,L=string(c,'name'); e,_=string(c,'empty',0); out,inn=files(c); p=target(c,t)
    chain(c,'dump_'+k,[out,A.ptr,nm],lambda s: c.run('load_'+t,[inn,p,e],expect='abort'))
@S(t=LOADS,how=['length','character'])
def other_name(c,t,how):
    k='d' if t in('d','real','int','size') else 'z'; A=c.tensor('A',k); nm,L=string(c,'name'); m,M=string(c,'wanted'); out,inn=files(c); p=target(c,t); pos=c.int('p',0)
    c.assume(LE(L,63),LE(M,63),GE(M,1)); c.st.mem['ghost'].d['at']=(L,pos,P(63))
    if how=='length': c.assume(NE(L,M))
    else: c.assume(LT(pos,L),LT(pos,M),NE(Sel('name',pos,0,'I'),Sel('wanted',pos,0,'I')))
    chain(c,'dump_'+k,[out,A.ptr,nm],lambda s: c.run('load_'+t,[inn,p,m],expect='abort'))
@S(k=['d','z'])
def not_a_number(c,k):
    """a tensor of several elements is not a number"""
    A=c.tensor('A',k); c.assume(GT(A.n,1)); e,_=string(c,'empty',0); out,inn=files(c); p=target(c,'real')
    chain(c,'dump_'+k,[out,A.ptr,e],lambda s: c.run('load_'+('real' if k=='d' else 'complex'),[inn,p,e],expect='abort'))
@S(k=['d','z'],f=['dump','load'])
def closed(c,k,f):
    A=c.tensor('A',k,mode='own'); e,_=string(c,'empty',0); out,inn=files(c)
    for x in('out','in'): c.st.mem[x].cells[112]=(1,ZERO)
    c.run('%s_%s'%(f,k),[out if f=='dump' else inn,A.ptr,e],expect='abort')

# ---------------------------------------------------------------- the header, opening and closing
@S()
def header(c):
    """a reader accepts the header a writer has written"""
    e,_=string(c,'empty',0); out,inn=files(c); st=c.st
    chain(c,'sdf::OutDataFile::write_header\\(\\)',[out],lambda s: [eof(c,x) for x,_ in c.run('sdf::InDataFile::read_header\\(\\)',[inn])])
def tag(st,p): 
    v=gh(st)['str'].get((p.obj,p.off.const()))
    if v is None or v[0]!='tag': raise Unsupported('file name')
    return v[1]
def ev(st,*e): g=gh(st); g['events']=g['events']+(e,)
def t_copy(ex,st,a,nm): sput(st,a[0],('tag',tag(st,a[1]))); return [(st,'ret',None)]
def lit(ex,p):
    n=p.obj.lstrip('@')
    for m in [ex.curmod]:
        g=m.globals.get(n)
        if g and ' c"' in g: return g.split(' c"')[1].split('"')[0].replace('\\00','')
        if g and '[1 x i8] zeroinitializer' in g: return ''
    raise Unsupported('literal')
def t_plus(ex,st,a,nm): sput(st,a[0],('tag',tag(st,a[1])+lit(ex,a[2]))); return [(st,'ret',None)]
def t_assign(ex,st,a,nm): sput(st,a[0],('tag',tag(st,a[1]))); return [(st,'ret',a[0])]
def t_cstr(ex,st,a,nm): return [(st,'ret',Ptr('text:'+tag(st,a[0]),0))]
def t_exists(ex,st,a,nm):
    t=tag(st,a[0]); ev(st,'exists?',t); s2=st.copy(); st.assume(BApp('exists '+t)); s2.assume(Not(BApp('exists '+t))); return [(x,'ret',v) for x,v in((st,TRUE),(s2,FALSE)) if feasible(x.facts)]
def t_delete(ex,st,a,nm): ev(st,'delete',tag(st,a[0])); return [(st,'ret',BApp('deleted '+tag(st,a[0])))]
def t_rename(ex,st,a,nm): ev(st,'rename',tag(st,a[0]),tag(st,a[1])); return [(st,'ret',TRUE)]
def t_lock(ex,st,a,nm): ev(st,'lock',a[0].obj[5:]); return [(st,'ret',ONE+ONE)]
def t_unlock(ex,st,a,nm): ev(st,'unlock',a[1].obj[5:]); return [(st,'ret',None)]
def t_stream(ex,st,a,nm): st.w(a[0].obj).cells[a[0].off.const()]=(8,Ptr('streamvt',24)); return [(st,'ret',None)]
def t_open(ex,st,a,nm): ev(st,'open',a[1].obj[5:]); return [(st,'ret',None)]
def t_sys(n):
    def g(ex,st,a,nm): ev(st,n,*[x.obj[5:] for x in a if isinstance(x,Ptr)]); return [(st,'ret',ZERO)]
    return g
PF=[(RX(STR)+'::basic_string\\(std::__cxx11::basic_string<.*> const&\\)',t_copy),('std::__cxx11::basic_string<.*> std::operator\\+<.*',t_plus),(RX(STR)+'::operator=\\(std.*&&\\)',t_assign),(RX(STR)+'::c_str\\(\\) const',t_cstr),
    ('sdf::get_lock\\(.*',t_lock),('sdf::giveup_lock\\(.*',t_unlock),('rename',t_sys('rename')),
    ('std::basic_ofstream<.*>::basic_ofstream\\(\\)',t_stream),('std::basic_ofstream<.*>::open\\(.*',t_open),('std::basic_ofstream<.*>::~basic_ofstream\\(\\)',nop),('sdf::OutDataFile::write_header\\(\\)',lambda ex,st,a,nm: (ev(st,'header'),[(st,'ret',None)])[1]),
    ('sdf::file_exists\\(.*',t_exists),('sdf::delete_file\\(.*',t_delete),('sdf::rename_file\\(.*',t_rename)]
def F(**v):
    def w(f): g=spec('C22',**v)(f); f.prims=PF+PR; return g
    return w
OVER,SHARED,PARANOID=0,1,4
def events(st): return [e for e in gh(st)['events'] if e[0]!='exists?']
def named(c,flags,isopen=1):
    out,inn=files(c); st=c.st; o=st.w('out'); o.cells[104]=(4,P(flags)); o.cells[108]=(4,P(2 if flags==SHARED else 0)); o.cells[112]=(1,P(isopen))
    for off,t in((8,'name.tmp' if flags==PARANOID else 'name'),(40,'name'),(72,'name.lck')): sput(st,Ptr('out',off),('tag',t))
    return out
def expect(c,st,want,what):
    ok=events(st) in want; c.ex.log(what,ok)
    if not ok: raise Failed(what,'%s instead of %s'%(events(st),want))
CLOSING={OVER:[],SHARED:[('unlock','name.lck')],PARANOID:[('rename','name.tmp','name')]}
@F(flags=[OVER,SHARED,PARANOID],how=['close','destructor'],isopen=[0,1])
def closing(c,flags,how,isopen):
    """what was written reaches the disk before the file gets its final name; nothing happens twice"""
    out=named(c,flags,isopen); w=['flush','close']+CLOSING[flags] if isopen else []; some=0
    for st,_ in c.run('sdf::OutDataFile::close\\(\\)' if how=='close' else 'sdf::OutDataFile::~OutDataFile\\(\\)',[out]):
        lost=prove(st.facts,Not(BApp('exists name.tmp'))) and flags==PARANOID and isopen      # the temporary file was removed behind the writer's back
        expect(c,st,[['flush','close'] if lost else w],'order of the operations at close'); some|=not lost
        c.prove_eq(st,st.mem['out'].cells[112][1],0,'the file is closed')
    if not some: raise Failed('order of the operations at close')
@F(flags=[OVER,SHARED,PARANOID])
def opening(c,flags):
    """a file replaced only when finished is written elsewhere: opening it touches nothing but the temporary file"""
    out,inn=files(c); c.st.mem['out']=Cells('out',632,'sret'); c.st.mem['arg']=Cells('arg',32,'param'); sput(c.st,Ptr('arg',0),('tag','name'))
    fn='name.tmp' if flags==PARANOID else 'name'; n=0
    for st,k,_ in [(s,'ret',r) for s,r in c.run('sdf::OutDataFile::OutDataFile\\(.*\\)',[out,Ptr('arg',0),P(flags)],'any')]:
        n+=1; ex=prove(st.facts,BApp('exists '+fn)); h=[] if ex else [('header',)]
        first={OVER:[('delete','name')] if ex else [],SHARED:[('lock','name.lck')],PARANOID:[('delete','name.tmp')]}[flags]
        if flags==OVER and ex: h=[]
        e=events(st); ok=e in([first+[('open',fn)]+h],[first+[('open',fn),('header',)]]) or e in(first+[('open',fn)]+h,); c.ex.log('order of the operations at opening',ok)
        if not ok: raise Failed('order of the operations at opening',str(e))
        g=gh(st)['str']
        for off,t in((8,fn),(40,'name'),(72,'name.lck')):
            ok=g.get(('out',off))==('tag',t); c.ex.log('file names',ok)
            if not ok: raise Failed('file names',str(g.get(('out',off))))
        c.prove_eq(st,st.mem['out'].cells[112][1],1,'the file is open'); c.prove_eq(st,st.mem['out'].cells[104][1],flags,'mode')
    if not n: raise Failed('opening returns')

@S(how=['first','second','third','int','long','endian'])
def foreign_header(c,how):
    """a file that does not start as this writer starts it is refused"""
    e,_=string(c,'empty',0); out,inn=files(c); st=c.st; st.mem['hd']=Buf('hd',1,'char',P(64),init_content('H','I'),1,ro=True)
    c.assume(*[NE(Sel('H',P(i),0,'I'),0) for i in range(6)]); c.assume(EQ(Sel('H',P(63),0,'I'),0)); st.facts.axioms['H']=lambda a:[GE(a.poly,-128),LE(a.poly,127)]
    i=['first','second','third','int','long','endian'].index(how); gh(st)['file']=(('hd',ZERO,P(64)),); c.assume(NE(Sel('H',P(i),0,'I'),ord('sdf481'[i])))
    c.run('sdf::InDataFile::read_header\\(\\)',[inn],expect='abort')
@S()
def no_header(c):
    e,_=string(c,'empty',0); out,inn=files(c); c.run('sdf::InDataFile::read_header\\(\\)',[inn],expect='abort')
# groups of tensors: the loops over the group are unrolled (groups of up to 3; bounded)
def p_resize(k):
    def g(ex,st,a,nm):
        n=a[1]
        if not n.is_const(): raise Unsupported('size of a group')
        n=int(n.const()); b=newid('group'); st.mem[b]=Cells(b,16*n,'heap'); outs=[st]
        for q in range(n): outs=[s for x in outs for s,kd,_ in ex.call(x,ex.prog.find(RX(TT(k))+'::Tensor\\(\\)')[0],[Ptr(b,16*q)])]
        for x in outs:
            o=x.w(a[0].obj); d=int(a[0].off.const())
            for off,e in((0,0),(8,16*n),(16,16*n)): o.cells[d+off]=(8,Ptr(b,e))
        return [(x,'ret',None) for x in outs]
    return g
def group(c,k,l,name,mode):
    o=c.st.mem[name]=Cells(name,24,'param'); e=c.st.mem[name+'.e']=Cells(name+'.e',16*l,'heap'); A=[]
    for q in range(l):
        T=c.tensor('%s%d'%(name,q),k,mode=mode); t=c.st.mem.pop(T.name); e.abs[16*q]=t.abs[0]; e.abs[16*q+8]=t.abs[8]; A.append(T); T.ptr=Ptr(name+'.e',16*q)
    for off,x in((0,0),(8,16*l),(16,16*l)): o.cells[off]=(8,Ptr(name+'.e',x))
    return Ptr(name,0),A
PG=[('std::vector<tensor::Tensor<%s >, std::allocator<tensor::Tensor<%s > > >::resize\\(unsigned long\\)'%(RX(CT[k]),RX(CT[k])),p_resize(k)) for k in 'dz']+[('std::vector<tensor::Tensor<%s>, std::allocator<tensor::Tensor<%s> > >::resize\\(unsigned long\\)'%(RX(CT[k]),RX(CT[k])),p_resize(k)) for k in 'dz']
@spec('C22',k=['d','z'],l=[0,1,2,3],named=[0,1])
def groups(c,k,l,named):
    nm,L=string(c,'name'); empty,_=string(c,'empty',0); out,inn=files(c); c.st.mem['ghost'].d['at']=(L,P(63)); m,A=group(c,k,l,'m','in'); o=c.st.mem['o']=Cells('o',24,'param')
    for off in(0,8,16): o.cells[off]=(8,Ptr(None,0))
    def then(st):
        v=st.mem['o'].cells; b=v[0][1]
        c.prove_eq(st,v[8][1].off-b.off,16*l,'size of the group')
        for q in range(l):
            R=c.tview(st,Ptr(b.obj,b.off+16*q)); R.rank_is(A[q].r); x=fresh('q'); R.dim(x,A[q].d(x),[GE(x,0),LT(x,A[q].r)]); R.elems([A[q].n],lambda i:i,lambda cc,i:A[q].at(i,cc),'elements loaded')
        eof(c,st)
    chain(c,'dump_v'+k,[out,m,nm],lambda s: chain(c,'load_v'+k,[inn,Ptr('o',0),nm if named else empty],then))
groups.prims=PG+PR
@spec('C22')
def rename_(c):
    files(c); st=c.st
    for x in('orig','dest'): st.mem[x]=Cells(x,32,'param'); sput(st,Ptr(x,0),('tag',x))
    some=0
    for s,r in c.run('sdf::rename_file\\(.*\\)',[Ptr('orig',0),Ptr('dest',0),TRUE],'any'):
        e=events(s); some+=1; ok=e in([('rename','orig','dest')],[('delete','dest'),('rename','orig','dest')]); c.ex.log('the file is moved',ok)
        if not ok: raise Failed('the file is moved',str(e))
    if not some: raise Failed('the file is moved')
rename_.prims=[p for p in PF if 'rename_file' not in p[0]]+PR
# groups of any length: the loops over the group against the contracts of dump and load of one tensor
def one_record(k,A0):
    ty='tensor::Tensor<%s ?>'%('double' if k=='d' else 'std::complex<double>')
    def count(st,f): o=st.w('recs'); n=o.cells[f][1]; o.cells[f]=(8,n+1); return n
    def elem(ex,st,p,obj):
        b=st.mem.get(p.obj)
        if not isinstance(b,Buf) or b.kind!='tensors' or not p.obj.startswith(obj): raise Failed('an element of the group',str(p))
        i=exact_div(P(p.off),P(16))
        if i is None: raise Failed('an element of the group',str(p))
        ex.require(st,And(GE(i,0),LT(i,b.n)),'an element of the group'); return i
    def store(st,b,i,v): w=st.w(b); w.content=Content(w.content,Eff('store',(),TRUE,P(i),0,P(v)))
    def dump(ex,st,a,nm): store(st,'written',count(st,0),elem(ex,st,a[1],'m.e'))          # record number n holds element i
    def load(ex,st,a,nm):
        i=elem(ex,st,a[1],'grp'); n=count(st,8); ex.require(st,LT(n,st.mem['recs'].cells[0][1]),'the record exists'); store(st,'got',i,n)      # element i is record number n
    def resize(ex,st,a,nm):
        b=newid('grp'); st.mem[b]=Buf(b,16,'tensors',a[1],const_content(ZERO)); o=st.w(a[0].obj); d=int(a[0].off.const())
        for off,e in((0,0),(8,16*a[1]),(16,16*a[1])): o.cells[d+off]=(8,Ptr(b,e))
    return [(r'sdf::OutDataFile::dump\(%s const&, std::.*\)'%ty,dump),(r'sdf::InDataFile::load\(%s ?\*, std::.*\)'%ty,load),(r'std::vector<%s ?, .*>::resize\(unsigned long\)'%ty,resize)]
@S(k=['d','z'],named=[0,1])
def long_groups(c,k,named):
    """a group of any length comes back, element by element, into a group of any length"""
    nm,L=string(c,'name'); empty,_=string(c,'empty',0); out,inn=files(c); l=c.int('l',0); p0=c.int('p0',0); c.assume(LE(l,1<<40)); st=c.st; st.mem['ghost'].d['at']=(L,P(63))
    for x,n in(('m',l),('o',p0)):
        o=st.mem[x]=Cells(x,24,'param'); st.mem[x+'.e']=Buf(x+'.e',16,'tensors',n,const_content(ZERO))
        for off,e in((0,ZERO),(8,16*n),(16,16*n)): o.cells[off]=(8,Ptr(x+'.e',e))
    for x in('written','got'): st.mem[x]=Buf(x,8,'long',l,undef_content())
    o=st.mem['recs']=Cells('recs',16,'ghost'); o.cells[0]=o.cells[8]=(8,ZERO)
    c.ex.prims[0:0]=[(re.compile(p),f) for p,f in one_record(k,None)]
    def then(st):
        v=st.mem['o'].cells; c.prove_eq(st,v[8][1].off-v[0][1].off,16*l,'size of the group')
        for b in(0,8): c.prove_eq(st,st.mem['recs'].cells[b][1],l,'one record per element')
        i=c.int('i',0); f=st.facts.add(LT(i,l)); r=lambda b: read_content(c.ex,f,st.mem[b].content,i,0)
        if feasible(f): c.prove(st,And(EQ(r('written'),i),EQ(r('got'),i)),'elements in order',f)
        eof(c,st)
    chain(c,'dump_v'+k,[out,Ptr('m',0),nm],lambda s: chain(c,'load_v'+k,[inn,Ptr('o',0),nm if named else empty],then))
