// Executable form of the contracts: naive oracles over every small shape plus seeded random ones, run on the
// library compiled from /repo's current sources (AddressSanitizer).  Used to turn a failed obligation into a concrete
// failing input, and as a labelled bounded stand-in where the verifier does not reach.
#ifndef REPLAY_H
#define REPLAY_H
#include <tensor/tensor.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <climits>
#include <csetjmp>
#include <csignal>
#include <unistd.h>
#include <string>
#include <vector>
#include <complex>
#include <sstream>
#include <set>
#include <map>
#include <functional>
#include <algorithm>
using namespace tensor;
typedef Tensor<double> RT; typedef Tensor<cdouble> CT; typedef std::vector<long> Dims;
namespace H {
static sigjmp_buf jb; static volatile int armed=0; static std::string ctx, key; static long evals=0, fails=0; static std::set<size_t> seen;
static std::map<std::string,int> perkey; static std::vector<std::string> samples; static const char *amsg="";
inline void fail(const std::string &k,const std::string &d){ fails++; if(perkey[k]++<3){ printf("FAIL %s: %s\n",k.c_str(),d.substr(0,1500).c_str()); fflush(stdout);} }
inline void die(const char *w){ printf("FAIL %s: %s while checking %s\n",key.c_str(),w,ctx.substr(0,1500).c_str()); fflush(stdout); _exit(1); }
}
extern "C" void __asan_on_error(){ H::die("memory error"); }
extern "C" const char *__asan_default_options(){ return "detect_leaks=0:allocator_may_return_null=1:handle_abort=0:detect_stack_use_after_return=0:abort_on_error=0:max_allocation_size_mb=4000"; }
extern "C" void __assert_fail(const char*e,const char*,unsigned,const char*) noexcept { H::amsg=e; if(H::armed){ siglongjmp(H::jb,1);} H::die("assertion failure"); _exit(1); }
extern "C" void abort() noexcept { H::amsg="abort()"; if(H::armed){ siglongjmp(H::jb,1);} H::die("abort"); _exit(1); }
namespace H {
inline void onsig(int s){ die(s==SIGALRM?"no termination within the time limit":s==SIGFPE?"arithmetic trap":"signal"); }
// true if f reaches abort()/a failed assertion
template<class F> bool aborts(F f){ volatile int old=armed; sigjmp_buf save; memcpy(&save,&jb,sizeof jb); volatile bool r=false;
  fflush(stdout); int e=dup(2); (void)e;
  armed=1; if(sigsetjmp(jb,1)==0) { f(); } else r=true;
  close(e); armed=old; memcpy(&jb,&save,sizeof jb); return r; }
// one case: no abort allowed
template<class F> void run(const std::string &k,const std::string &d,F f){ key=k; ctx=d; alarm(60); evals++; size_t h=std::hash<std::string>()(k+d); seen.insert(h);
  if(samples.size()<6 && (evals%97)==1) samples.push_back(k+": "+d);
  if(aborts(f)) fail(k,"aborts ("+std::string(amsg)+") for "+d); alarm(0); }
// one case: must abort
template<class F> void must_abort(const std::string &k,const std::string &d,F f){ key=k; ctx=d; alarm(60); evals++; seen.insert(std::hash<std::string>()(k+d));
  if(!aborts(f)) fail(k,"does not abort for "+d); alarm(0); }
inline void check(bool c,const std::string &k,const std::string &d){ if(!c) fail(k,d); }
static unsigned long long S=88172645463325252ULL;
inline unsigned long rnd(){ S^=S<<13; S^=S>>7; S^=S<<17; return (unsigned long)(S>>11); }
inline long rint(long a,long b){ return a+(long)(rnd()%(unsigned long)(b-a+1)); }
static bool thorough=false;
inline void init(int argc,char**argv){ long s=1; if(argc>1) s=atol(argv[1]); S^=(unsigned long long)s*0x9E3779B97F4A7C15ULL; for(int i=0;i<10;i++) rnd(); if(argc>2) thorough=!strcmp(argv[2],"thorough");
  signal(SIGFPE,onsig); signal(SIGALRM,onsig); }
inline int finish(){ for(auto&s:samples) printf("SAMPLE %s\n",s.substr(0,300).c_str()); printf("DONE evaluations=%ld distinct=%zu failures=%ld\n",evals,seen.size(),fails); fflush(stdout); _exit(fails?1:0); }
// ------------------------------------------------------------------ printing
template<class T> std::string str(const T&x){ std::ostringstream o; o.precision(17); o<<x; return o.str(); }
inline std::string str(const Dims&d){ std::string s="{"; for(size_t i=0;i<d.size();i++) s+=(i?",":"")+std::to_string(d[i]); return s+"}"; }
template<class T> std::string vstr(const std::vector<T>&v){ std::string s="["; for(size_t i=0;i<v.size();i++) s+=(i?",":"")+str(v[i]); return s+"]"; }
// ------------------------------------------------------------------ library <-> plain data
inline Indices ind(const Dims&d){ Indices r((long)d.size()); for(size_t i=0;i<d.size();i++) r.at((long)i)=d[i]; return r; }
template<class V> Dims dimsof(const V&v){ Dims d; for(long i=0;i<(long)v.size();i++) d.push_back(v[i]); return d; }
inline long prod(const Dims&d){ long p=1; for(long x:d) p*=x; return p; }
template<class E> struct N { Dims d; std::vector<E> v; N(){} N(const Dims&dd):d(dd),v((size_t)prod(dd)){}
  size_t pos(const Dims&i) const { size_t p=0,f=1; for(size_t k=0;k<d.size();k++){ p+=i[k]*f; f*=d[k]; } return p; }
  E &operator()(const Dims&i){ return v[pos(i)]; } const E &operator()(const Dims&i) const { return v[pos(i)]; } };
template<class F> void each(const Dims&d,F f){ if(prod(d)==0) return; Dims i(d.size(),0); for(;;){ f((const Dims&)i); size_t k=0; for(;k<d.size();k++){ if(++i[k]<d[k]) break; i[k]=0; } if(k==d.size()) return; } }
template<class E> Tensor<E> lib(const N<E>&a){ Tensor<E> t(ind(a.d)); for(size_t i=0;i<a.v.size();i++) t.at((long)i)=a.v[i]; return t; }
template<class E> N<E> plain(const Tensor<E>&t){ N<E> a; a.d=dimsof(t.dimensions()); for(long i=0;i<(long)t.size();i++) a.v.push_back(t[i]); return a; }
template<class E> std::string str(const N<E>&a){ return str(a.d)+vstr(a.v); }
inline double elem(double*){ return (double)rint(-6,6); }
inline cdouble elem(cdouble*){ return cdouble((double)rint(-6,6),(double)rint(-6,6)); }
inline double elemnz(double*){ double x=elem((double*)0); return x?x:1.0; }
inline cdouble elemnz(cdouble*){ cdouble x=elem((cdouble*)0); return x!=0.0?x:cdouble(1,-1); }
static bool fine=false;     // some elements need more digits than a float has (their products with one another still are exact)
inline double eps(double*){ return std::ldexp((double)rint(-1,1),-23); }
inline cdouble eps(cdouble*){ double a=eps((double*)0); return cdouble(a,eps((double*)0)); }
template<class E> N<E> rnd_n(const Dims&d,bool nz=false){ N<E> a(d); bool f=fine&&rint(0,1); for(auto&x:a.v){ x=nz?elemnz((E*)0):elem((E*)0); if(f&&x!=E(0)) x+=eps((E*)0); } return a; }
// every shape of rank 1..R with dimensions lo..D and at most M elements
inline std::vector<Dims> shapes(int R,long lo,long D,long M=1000000){ std::vector<Dims> out; for(int r=1;r<=R;r++){ Dims d(r,lo); for(;;){ if(prod(d)<=M) out.push_back(d); int k=0; for(;k<r;k++){ if(++d[k]<=D) break; d[k]=lo; } if(k==r) break; } } return out; }
// one dimension beyond a few hundred, at every place, and high ranks
inline std::vector<Dims> big(size_t R=8){ std::vector<Dims> o,l={{1100},{300,2},{2,300},{260,1},{1,260},{40,45},{140,2,3},{2,140,3},{3,2,140},{7,9,11},{2,70,1,3},{70,2,3,2},{3,2,2,70},{6,5,4,5},{2,3,2,20,2},{2,2,2,2,2,3},{2,1,3,1,2,2,2},{2,2,2,2,2,2,2,2},{95,97},{2,4501},{4501,2},{9001}}; for(auto&d:l) if(d.size()<=R) o.push_back(d); return o; }
inline bool near(double a,double b,double tol=1e-11){ if(a==b) return true; if(std::isnan(a)&&std::isnan(b)) return true; return std::abs(a-b)<=tol*(1+std::max(std::abs(a),std::abs(b))); }
inline bool near(cdouble a,cdouble b,double tol=1e-11){ if(a==b) return true; if((std::isnan(a.real())||std::isnan(a.imag()))&&(std::isnan(b.real())||std::isnan(b.imag()))) return true; return std::abs(a-b)<=tol*(1+std::max(std::abs(a),std::abs(b))); }
inline bool bothnan(double a,double b){ return a!=a&&b!=b; } inline bool eqn(double a,double b){ return a==b||(a!=a&&b!=b); } inline bool bothnan(cdouble a,cdouble b){ return eqn(a.real(),b.real())&&eqn(a.imag(),b.imag()); }
// compares a library tensor with the oracle
template<class E> void same(const std::string&k,const std::string&what,const Tensor<E>&got,const N<E>&want,double tol=0){
  Dims g=dimsof(got.dimensions());
  if(g!=want.d){ fail(k,what+": dimensions "+str(g)+", contract says "+str(want.d)); return; }
  if((long)got.size()!=prod(want.d)){ fail(k,what+": size "+std::to_string((long)got.size())+", contract says "+std::to_string(prod(want.d))); return; }
  for(size_t i=0;i<want.v.size();i++){ E x=got[(long)i]; if(!(tol==0? x==want.v[i] || (x!=x && want.v[i]!=want.v[i]) || bothnan(x,want.v[i]) : near(x,want.v[i],tol))){ fail(k,what+": element "+std::to_string(i)+" is "+str(x)+", contract says "+str(want.v[i])); return; } } }
template<class V,class E> void samev(const std::string&k,const std::string&what,const V&got,const std::vector<E>&want){
  if((size_t)got.size()!=want.size()){ fail(k,what+": length "+std::to_string((long)got.size())+", contract says "+std::to_string(want.size())); return; }
  for(size_t i=0;i<want.size();i++) if(!(got[(long)i]==want[i])){ fail(k,what+": entry "+std::to_string(i)+" is "+str(got[(long)i])+", contract says "+str(want[i])); return; } }
inline cdouble cj(cdouble x){ return std::conj(x); } inline double cj(double x){ return x; }
template<class E> const char *tn(E*); template<> inline const char*tn(double*){return "R";} template<> inline const char*tn(cdouble*){return "C";}
template<class E> std::string TN(){ return tn((E*)0); }
}
using namespace H;
#endif
