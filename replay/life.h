// Random histories over a pool of containers against a model with plain values (C01) and a ledger of allocations (C02).
#include <new>
#include <cstdlib>
#include <cstring>
#include <memory>
#include "h.h"
#include <tensor/sparse.h>
static volatile int inlib=0; static long liblive=0, libbytes=0; static const char *memfault=0; static std::string memwhat;
struct Head { unsigned long magic; size_t n; long lib; long pad; };
enum : unsigned long { ALIVE=0xA11FE0A11FE0ul, DEAD=0xDEADDEADDEADul, EXTERN=0xE87E87E87E87ul };
static Head *quarantine[512]; static int qn=0;
static void *take(size_t n){ Head *h=(Head*)malloc(sizeof(Head)+n+1); if(!h) abort(); h->magic=ALIVE; h->n=n; h->lib=inlib; if(inlib){ liblive++; libbytes+=(long)n; } memset((void*)(h+1),0xA5,n); return h+1; }
static void give(void *p){ if(!p) return; Head *h=((Head*)p)-1;
  if(h->magic==DEAD){ memfault="storage released twice"; return; }
  if(h->magic==EXTERN){ memfault="external storage released by the library"; return; }
  if(h->magic!=ALIVE){ memfault="release of memory that was not allocated"; return; }
  if(h->lib){ liblive--; libbytes-=(long)h->n; }
  h->magic=DEAD; memset((void*)(h+1),0xDD,h->n); Head *o=quarantine[qn]; quarantine[qn]=h; qn=(qn+1)%512; if(o) free(o); }
void *operator new(size_t n){ return take(n); } void *operator new[](size_t n){ return take(n); }
void operator delete(void*p) noexcept { give(p); } void operator delete[](void*p) noexcept { give(p); }
void operator delete(void*p,size_t) noexcept { give(p); } void operator delete[](void*p,size_t) noexcept { give(p); }
struct L { L(){ inlib++; } ~L(){ inlib--; } };
static bool ledger=false;     // C02 reports on memory, C01 on values
static void memcheck(const std::string&w){ if(memfault&&ledger) fail(memfault,w); memfault=0; }
// external memory: guarded, recognisable when released
template<class E> struct Ext { std::vector<E> want; Head *h; long n; E *data(){ return (E*)(h+1); }
  Ext(const std::vector<E>&v):want(v),n((long)v.size()){ h=(Head*)malloc(sizeof(Head)+sizeof(E)*(v.size()+1)+8); h->magic=EXTERN; for(size_t i=0;i<v.size();i++) new(data()+i) E(v[i]); } ~Ext(){ h->magic=DEAD; free(h); } };
inline long el(long*){ return rint(-9,9); } inline bool el(bool*){ return rint(0,1); } inline double el(double*p){ return elem(p); } inline cdouble el(cdouble*p){ return elem(p); }
template<class E> std::vector<E> rv(long n){ std::vector<E> v; for(long i=0;i<n;i++) v.push_back(el((E*)0)); return v; }
template<class E> struct G { std::shared_ptr<Ext<E>> x; };     // a sharing group; x: external memory
// what the history calls on a container of elements E
template<class E> struct Slot { Vector<E> *c=0; std::vector<E> v; std::shared_ptr<G<E>> g; };
template<class E> std::string sv(const std::vector<E>&v){ std::string s="["; for(size_t i=0;i<v.size();i++) s+=(i?",":"")+str((E)v[i]); return s+"]"; }
template<class E> bool eqv(const std::vector<E>&a,const std::vector<E>&b){ if(a.size()!=b.size()) return false; for(size_t i=0;i<a.size();i++) if(!(a[i]==b[i])) return false; return true; }
template<class V,class E> std::vector<E> rd(const V&c,E*){ std::vector<E> r; long n=(long)c.size(); if(n<0||n>100000){ return std::vector<E>(1); } const V&k=c; for(long i=0;i<n;i++) r.push_back(k[i]); return r; }
template<class E> void vectors(const char *nm,int steps){
  const int P=5; Slot<E> s[P]; std::vector<std::shared_ptr<Ext<E>>> keep; std::string log; long live0=liblive;
  auto note=[&](const std::string&x){ log+=x+"; "; if(log.size()>900) log="..."+log.substr(log.size()-700); };
  auto detach=[&](Slot<E>&q){ if(q.g.use_count()>1) q.g=std::make_shared<G<E>>(); };
  auto wr=[&](Slot<E>&q){ detach(q); };
  auto all=[&](){ memcheck(log); long bound=0;
    for(int i=0;i<P;i++) if(s[i].c){ bound+=(long)(s[i].v.size()*sizeof(E))+256; std::vector<E> r; { r=rd(*s[i].c,(E*)0); } if(!eqv(r,s[i].v)) fail(std::string("contents of a ")+nm+" vector after a history",log+" slot "+std::to_string(i)+" reads "+sv(r)+" expected "+sv(s[i].v));
      }
    if(ledger) for(auto&x:keep){ std::vector<E> e(x->data(),x->data()+x->n); if(!eqv(e,x->want)) fail(std::string("external memory is used in place while unshared, and left alone otherwise (")+nm+")",log+" external memory holds "+sv(e)+" expected "+sv(x->want)); }
    if(ledger&&libbytes>bound+4096) fail("storage is released with its last holder",log+" "+std::to_string(libbytes)+" bytes still allocated for at most "+std::to_string(bound));
    };
  key=std::string("history of ")+nm+" vectors"; evals++;
  for(int t=0;t<steps;t++){ int i=(int)rint(0,P-1), j=(int)rint(0,P-1); Slot<E>&a=s[i],&b=s[j]; std::string I=std::to_string(i),J=std::to_string(j); alarm(60);
    ctx=log;
    if(!a.c){ a.g=std::make_shared<G<E>>();
      switch(rint(0,3)){
       case 0: { long n=rint(0,4); auto v=rv<E>(n); note("new "+I+"="+sv(v)); { L l; a.c=new Vector<E>(n); for(long k=0;k<n;k++) a.c->at(k)=v[k]; } a.v=v; break; }
       case 1: { note("new "+I+" empty"); { L l; a.c=new Vector<E>(); } a.v.clear(); break; }
       case 2: if(b.c){ note("copy "+I+" of "+J); { L l; a.c=new Vector<E>(*b.c); } a.v=b.v; a.g=b.g; break; }  // fallthrough
       default: { auto v=rv<E>(rint(0,4)); auto x=std::make_shared<Ext<E>>(v); keep.push_back(x); note("wrap "+I+"="+sv(v)); { L l; a.c=new Vector<E>((tensor::index)v.size(),x->data()); } a.v=v; a.g->x=x; } }
    } else switch(rint(0,7)){
      case 0: if(b.c){ note("assign "+I+"="+J); { L l; *a.c=*b.c; } a.v=b.v; a.g=b.g; } break;
      case 1: case 2: if(a.v.size()){ long k=rint(0,(long)a.v.size()-1); E e=el((E*)0); int w=(int)rint(0,2); note("write "+I+"["+std::to_string(k)+"]="+str(e)+" via "+(w==0?"at":w==1?"begin":"end")); { L l; if(w==0) a.c->at(k)=e; else if(w==1) *(a.c->begin()+k)=e; else *(a.c->end()-((long)a.v.size()-k))=e; } wr(a); a.v[k]=e; if(a.g->x) a.g->x->want=a.v; } break;
      case 3: { long n=rint(0,5); auto v=rv<E>(n); note("resize "+I+" to "+std::to_string(n)+" and fill "+sv(v)); { L l; a.c->resize(n); } a.g=std::make_shared<G<E>>();
          if((long)a.c->size()!=n) fail(std::string("size after resize (")+nm+")",log); else { L l; for(long k=0;k<n;k++) a.c->at(k)=v[k]; } a.v=v; } break;
      case 4: { note("destroy "+I); { L l; delete a.c; } a.c=0; a.g.reset(); a.v.clear(); } break;
      case 5: { note("self-assign "+I); L l; Vector<E>&r=*a.c; *a.c=r; } break;
      case 6: { note("copy-assign chain through "+I); L l; Vector<E> x(*a.c), y; y=x; *a.c=y; } break;
      case 7: { note("write to a temporary copy of "+I); L l; Vector<E> x(*a.c); if(x.size()) x.at(0)=el((E*)0); x.resize(2); } break;
    }
    all(); }
  for(int i=0;i<P;i++){ if(s[i].c){ note("destroy "+std::to_string(i)); { L l; delete s[i].c; } s[i].c=0; s[i].g.reset(); all(); } }
  if(ledger&&liblive!=live0) fail("all storage is released at the end",log+" "+std::to_string(liblive-live0)+" blocks left"); seen.insert(std::hash<std::string>()(log)); liblive=live0;
}
template<class E> struct TS { Tensor<E> *c=0; N<E> m; };
template<class E> void tensors(const char*nm,int steps){
  const int P=4; TS<E> s[P]; std::string log; long live0=liblive; auto note=[&](const std::string&x){ log+=x+"; "; if(log.size()>1100) log="..."+log.substr(log.size()-900); };
  auto all=[&](){ memcheck(log); for(int i=0;i<P;i++) if(s[i].c){ N<E> r=plain(*s[i].c); if(r.d!=s[i].m.d||!eqv(r.v,s[i].m.v)) fail(std::string("contents of a ")+nm+" tensor after a history",log+" slot "+std::to_string(i)+" reads "+str(r)+" expected "+str(s[i].m)); } };
  static const Dims SH[]={{9,9},{7,2,10},{3},{1},{0},{2,2},{4},{1,4},{2,3},{3,2},{6},{1,2,3},{2,1,2},{0,2}};
  key=std::string("history of ")+nm+" tensors"; evals++;
  for(int t=0;t<steps;t++){ int i=(int)rint(0,P-1), j=(int)rint(0,P-1); TS<E>&a=s[i],&b=s[j]; std::string I=std::to_string(i),J=std::to_string(j); ctx=log; alarm(60);
    if(!a.c){ if(b.c&&rint(0,2)){ note("copy "+I+" of "+J); { L l; a.c=new Tensor<E>(*b.c); } a.m=b.m; } else { a.m=rnd_n<E>(SH[rint(0,13)],true); note("new "+I+"="+str(a.m)); L l; a.c=new Tensor<E>(ind(a.m.d)); for(size_t k=0;k<a.m.v.size();k++) a.c->at_seq((long)k)=a.m.v[k]; } }
    else { long n=(long)a.m.v.size(); E e=elemnz((E*)0); switch(rint(0,13)){
      case 0: if(b.c){ note("assign "+I+"="+J); { L l; *a.c=*b.c; } a.m=b.m; } break;
      case 1: if(n){ long k=rint(0,n-1); note("write "+I+" at_seq "+std::to_string(k)+" "+str(e)); { L l; a.c->at_seq(k)=e; } a.m.v[k]=e; } break;
      case 2: if(n){ long k=rint(0,n-1); note("write "+I+" iterator "+std::to_string(k)+" "+str(e)); { L l; *(a.c->begin()+k)=e; } a.m.v[k]=e; } break;
      case 3: note("fill "+I+" "+str(e)); { L l; a.c->fill_with(e); } for(auto&x:a.m.v) x=e; break;
      case 4: note("zeros "+I); { L l; a.c->fill_with_zeros(); } for(auto&x:a.m.v) x=E(0); break;
      case 5: case 6: { int op=(int)rint(0,2); bool t2=b.c&&b.m.d==a.m.d; note(I+(op==0?"+=":op==1?"-=":"*=")+(t2?J:str(e))); N<E> w=a.m; for(long k=0;k<n;k++){ E y=t2?b.m.v[k]:e; w.v[k]=op==0?a.m.v[k]+y:op==1?a.m.v[k]-y:a.m.v[k]*y; }
          { L l; if(t2){ if(op==0) *a.c+=*b.c; else if(op==1) *a.c-=*b.c; else *a.c*=*b.c; } else { if(op==0) *a.c+=e; else if(op==1) *a.c-=e; else *a.c*=e; } } 
          bool big=false; for(auto&x:w.v) if(std::abs(x)>1e6) big=true; a.m=w; if(big){ { L l; a.c->fill_with(E(1)); } for(auto&x:a.m.v) x=E(1); } } break;
      case 7: { Dims d; if(a.m.d.size()>1) d={n}; else if(n%2==0) d={2,n/2}; else d={1,n}; note("reshape "+I+" "+str(d)); { L l; a.c->reshape(ind(d)); } a.m.d=d; } break;
      case 8: if(a.m.d.size()==1&&n){ long k=rint(0,n-1); note("write slice "+I+"("+std::to_string(k)+")="+str(e)); { L l; a.c->at(range(k))=Tensor<E>(Vector<E>(1,&e)); } a.m.v[k]=e; } break;
      case 9: if(a.m.d.size()==2&&n){ long k=rint(0,a.m.d[1]-1); note("column "+std::to_string(k)+" of "+I+" assigned from its own first column"); long r=a.m.d[0]; { L l; a.c->at(range(),range(k))=Tensor<E>((*a.c)(range(),range(0))); } for(long q=0;q<r;q++) a.m.v[k*r+q]=a.m.v[q]; } break;
      case 10: { note("destroy "+I); { L l; delete a.c; } a.c=0; } break;
      case 11: { note("view of "+I+" read back"); L l; Tensor<E> x(*a.c); if(n) x.at_seq(0)=e; x=x+x; Tensor<E> y(igen<<n,*a.c); y.fill_with(e); } break;
      case 12: { note("dimensions of "+I+" copied and changed"); L l; Indices d(a.c->dimensions()); if(d.size()) d.at(0)=77; } break;
      case 13: { note("vector from "+I+" changed"); L l; Vector<E> v(*a.c); if(n) v.at(n-1)=e; Tensor<E> q(v); if(n) q.at_seq(0)=e; } break; } }
    all(); }
  for(int i=0;i<P;i++) if(s[i].c){ { L l; delete s[i].c; } s[i].c=0; all(); }
  if(ledger&&liblive!=live0) fail("all storage is released at the end",log+" "+std::to_string(liblive-live0)+" blocks left"); seen.insert(std::hash<std::string>()(log)); liblive=live0;
}
template<class E> struct SS { Sparse<E> *c=0; N<E> m; };
template<class E> void sparses(const char*nm,int steps){
  const int P=4; SS<E> s[P]; std::string log; long live0=liblive; auto note=[&](const std::string&x){ log+=x+"; "; };
  auto all=[&](){ memcheck(log); for(int i=0;i<P;i++) if(s[i].c){ N<E> r=plain(full(*s[i].c)); if(r.d!=s[i].m.d||!eqv(r.v,s[i].m.v)) fail(std::string("contents of a ")+nm+" sparse matrix after a history",log+" slot "+std::to_string(i)+" reads "+str(r)+" expected "+str(s[i].m)); } };
  key=std::string("history of ")+nm+" sparse matrices"; evals++;
  for(int t=0;t<steps;t++){ int i=(int)rint(0,P-1), j=(int)rint(0,P-1); SS<E>&a=s[i],&b=s[j]; std::string I=std::to_string(i),J=std::to_string(j); ctx=log; alarm(60);
    if(!a.c){ if(b.c&&rint(0,2)){ note("copy "+I+" of "+J); { L l; a.c=new Sparse<E>(*b.c); } a.m=b.m; } else { a.m=rnd_n<E>(Dims{rint(1,3),rint(1,3)}); if(!rint(0,2)) for(auto&x:a.m.v) x=E(0); note("new "+I+"="+str(a.m)); Tensor<E> f=lib(a.m); L l; a.c=new Sparse<E>(f); } }
    else switch(rint(0,6)){
      case 0: case 1: if(b.c){ note("assign "+I+"="+J); { L l; *a.c=*b.c; } a.m=b.m; } break;
      case 2: if(a.c->priv_data().size()){ long k=rint(0,(long)a.c->priv_data().size()-1); E e=elemnz((E*)0); note("write value "+std::to_string(k)+" of "+I+" "+str(e)); { L l; a.c->data_.at_seq(k)=e; } long q=0; bool hit=false; for(long r=0;r<a.m.d[0];r++) for(long cc=0;cc<a.m.d[1];cc++) if(a.m.v[cc*a.m.d[0]+r]!=E(0)){ if(q==k&&!hit){ a.m.v[cc*a.m.d[0]+r]=e; hit=true; } q++; } } break;
      case 3: { note("destroy "+I); { L l; delete a.c; } a.c=0; } break;
      case 4: { note("parts of "+I+" copied and changed"); L l; Indices r(a.c->priv_row_start()), c2(a.c->priv_column()); Tensor<E> d(a.c->priv_data()); if(r.size()) r.at(0)=5; if(c2.size()) c2.at(0)=7; d.fill_with(E(9)); } break;
      case 5: { note("self-assign "+I); L l; Sparse<E>&r=*a.c; *a.c=r; } break;
      case 6: { note("arithmetic on "+I); L l; Sparse<E> x(*a.c); x=x+x; x=x*number_one<E>(); } break; }
    all(); }
  for(int i=0;i<P;i++) if(s[i].c){ { L l; delete s[i].c; } s[i].c=0; all(); }
  if(ledger&&liblive!=live0) fail("all storage is released at the end",log+" "+std::to_string(liblive-live0)+" blocks left"); seen.insert(std::hash<std::string>()(log)); liblive=live0;
}
// many holders of the same storage
template<class E> void crowd(const char*nm,long n){ long live0=liblive; run(std::string("many copies of a ")+nm+" vector",std::to_string(n)+" copies",[&]{ auto v=rv<E>(3); Vector<E> *a,**c; { L l; a=new Vector<E>(3); for(int k=0;k<3;k++) a->at(k)=v[k]; } c=new Vector<E>*[n];
   for(long i=0;i<n;i++){ L l; if(i%2){ c[i]=new Vector<E>(*a); } else { c[i]=new Vector<E>(); *c[i]=*a; } }
   long w=rint(0,n-1); E e=v[0]; e=e==E(1)?E(0):E(1); { L l; c[w]->at(0)=e; }
   for(long i=-1;i<n;i++){ std::vector<E> r=rd(i<0?*a:*c[i],(E*)0); std::vector<E> x=v; if(i==w) x[0]=e; if(!eqv(r,x)){ fail(std::string("many copies of a ")+nm+" vector",std::to_string(n)+" copies, write to copy "+std::to_string(w)+": copy "+std::to_string(i)+" reads "+sv(r)+" expected "+sv(x)); break; } }
   for(long i=0;i<n;i++){ L l; delete c[i]; } delete[] c; std::vector<E> r=rd(*a,(E*)0); if(!eqv(r,v)) fail(std::string("many copies of a ")+nm+" vector",std::to_string(n)+" copies destroyed: the original reads "+sv(r)+" expected "+sv(v)); { L l; delete a; } memcheck(std::to_string(n)+" copies"); });
  if(ledger&&liblive!=live0) fail("all storage is released at the end",std::to_string(n)+" copies of a vector"); liblive=live0; }
inline void histories(){ for(long n:{2L,100L,127L,128L,129L,200L,255L,256L,257L,300L,1000L,40000L,66000L}){ crowd<double>("double",n); crowd<cdouble>("complex",n); crowd<long>("long",n); crowd<bool>("bool",n); }
  int H=thorough?20000:2500;
  for(int h=0;h<H;h++){ int st=(int)rint(4,h%10?40:200); vectors<double>("double",st); vectors<cdouble>("complex",st); vectors<long>("long",st); vectors<bool>("bool",st); tensors<double>("double",st); tensors<cdouble>("complex",st); sparses<double>("double",st/2); sparses<cdouble>("complex",st/2); } }
