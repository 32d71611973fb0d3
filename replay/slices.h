#include "h.h"
struct Sel { int kind; long a,b,s; Dims l; };
inline std::string str(const Sel&r){ using std::to_string; switch(r.kind){ case 0: return ":"; case 1: return to_string(r.a); case 2: return to_string(r.a)+":"+to_string(r.b); case 3: return to_string(r.a)+":"+to_string(r.s)+":"+to_string(r.b); } return H::str(r.l); }
inline PRange mk(const Sel&r){ switch(r.kind){ case 0: return range(); case 1: return range((tensor::index)r.a); case 2: return range((tensor::index)r.a,(tensor::index)r.b); case 3: return range((tensor::index)r.a,(tensor::index)r.b,(tensor::index)r.s); } return range(ind(r.l)); }
// selected positions of a dimension of size d; false if the selection is out of bounds
inline bool sel(const Sel&r,long d,Dims&out){ out.clear();
  switch(r.kind){
  case 0: for(long i=0;i<d;i++) out.push_back(i); return true;
  case 1: { long i=r.a<0?r.a+d:r.a; if(i<0||i>=d) return false; out.push_back(i); return true; }
  case 2: case 3: { long st=r.kind==3?r.s:1, a=r.a<0?r.a+d:r.a, b=r.b<0?r.b+d:r.b; if(a<0||b>=d) return false; for(long i=a;i<=b;i+=st) out.push_back(i); return true; }
  default: for(long x:r.l){ long i=x<0?x+d:x; if(i<0||i>=d) return false; out.push_back(i); } return true; } }
inline bool valid(const Sel&r,long d){ Dims o; return sel(r,d,o); }
inline long neg(long i,long d){ return rint(0,3)?i:i-d; }
// a valid selection
inline Sel pick(long d,bool distinct){ Sel r{0,0,0,1,{}}; if(!d){ r.kind=rint(0,2); if(r.kind==1) r.kind=4; if(r.kind==2){ r.a=0; r.b=-1; } return r; }
  r.kind=rint(0,4); switch(r.kind){ case 1: r.a=neg(rint(0,d-1),d); break;
   case 2: case 3: { long a=rint(0,d-1),b=rint(a,d-1); if(!rint(0,9)&&a){ b=a-1; r.a=a; r.b=b; r.s=rint(1,3); break; } r.a=neg(a,d); r.b=neg(b,d); r.s=rint(1,4); break; }
   case 4: { Dims p; for(long i=0;i<d;i++) p.push_back(i); for(long i=d-1;i>0;i--) std::swap(p[i],p[rint(0,i)]); long n=rint(0,d); if(distinct){ p.resize(n); for(auto&x:p) x=neg(x,d); r.l=p; } else { n=rint(0,d+2); for(long i=0;i<n;i++) r.l.push_back(neg(rint(0,d-1),d)); } } }
  return r; }
// every selection of a small family
inline std::vector<Sel> family(long d){ std::vector<Sel> f; f.push_back({0,0,0,1,{}}); for(long i=-d;i<d;i++) f.push_back({1,i,0,1,{}});
  for(long a=-d;a<=d;a++) for(long b=-d;b<d;b++){ Sel r{2,a,b,1,{}}; if(valid(r,d)){ f.push_back(r); for(long s=1;s<=3;s++) f.push_back({3,a,b,s,{}}); } }
  f.push_back({4,0,0,1,{}}); if(d){ Dims rev,ev; for(long i=d-1;i>=0;i--) rev.push_back(i); for(long i=0;i<d;i+=2) ev.push_back(i-d); f.push_back({4,0,0,1,rev}); f.push_back({4,0,0,1,ev}); Dims rot; for(long i=0;i<d;i++) rot.push_back((i+1)%d); f.push_back({4,0,0,1,rot}); }
  return f; }
inline std::vector<Sel> bads(long d){ std::vector<Sel> f; for(long i:{d,d+3,-d-1,-d-4}){ f.push_back({1,i,0,1,{}}); if(i>=d){ f.push_back({2,0,i,1,{}}); f.push_back({3,0,i,2,{}}); } else if(d) f.push_back({2,i,d-1,1,{}}); f.push_back({4,0,0,1,{i}}); if(d) f.push_back({4,0,0,1,{0,i}}); } return f; }
typedef std::vector<Sel> Sels;
inline std::string str(const Sels&s){ std::string o="("; for(size_t i=0;i<s.size();i++) o+=(i?",":"")+str(s[i]); return o+")"; }
template<class E> Tensor<E> get(const Tensor<E>&A,const Sels&s){ switch(s.size()){ case 1: return A(mk(s[0])); case 2: return A(mk(s[0]),mk(s[1])); case 3: return A(mk(s[0]),mk(s[1]),mk(s[2])); case 4: return A(mk(s[0]),mk(s[1]),mk(s[2]),mk(s[3])); case 5: return A(mk(s[0]),mk(s[1]),mk(s[2]),mk(s[3]),mk(s[4])); } return A(mk(s[0]),mk(s[1]),mk(s[2]),mk(s[3]),mk(s[4]),mk(s[5])); }
template<class E,class V> void put(Tensor<E>&A,const Sels&s,const V&v){ switch(s.size()){ case 1: A.at(mk(s[0]))=v; break; case 2: A.at(mk(s[0]),mk(s[1]))=v; break; case 3: A.at(mk(s[0]),mk(s[1]),mk(s[2]))=v; break; case 4: A.at(mk(s[0]),mk(s[1]),mk(s[2]),mk(s[3]))=v; break; case 5: A.at(mk(s[0]),mk(s[1]),mk(s[2]),mk(s[3]),mk(s[4]))=v; break; default: A.at(mk(s[0]),mk(s[1]),mk(s[2]),mk(s[3]),mk(s[4]),mk(s[5]))=v; } }
template<class E> void putv(Tensor<E>&A,const Sels&s,const Tensor<E>&B,const Sels&t){ // slice = slice
  switch(t.size()){ case 1: put(A,s,B(mk(t[0]))); break; case 2: put(A,s,B(mk(t[0]),mk(t[1]))); break; case 3: put(A,s,B(mk(t[0]),mk(t[1]),mk(t[2]))); break; default: put(A,s,B(mk(t[0]),mk(t[1]),mk(t[2]),mk(t[3]))); } }
// positions selected, in column-major order of the selection
inline bool positions(const Dims&d,const Sels&s,Dims&pos,Dims&nd){ std::vector<Dims> o(s.size()); nd.clear(); Dims dd=d; if(s.size()==1&&d.size()!=1) dd={prod(d)};
  for(size_t i=0;i<s.size();i++){ if(!sel(s[i],dd[i],o[i])) return false; nd.push_back(o[i].size()); }
  pos.clear(); each(nd,[&](const Dims&k){ long p=0,f=1; for(size_t i=0;i<k.size();i++){ p+=o[i][k[i]]*f; f*=dd[i]; } pos.push_back(p); }); return true; }
template<class F> void combos(const Dims&d,F f){ std::vector<Sels> fam; for(long x:d) fam.push_back(family(x)); std::vector<size_t> i(d.size(),0); for(;;){ Sels s; for(size_t k=0;k<d.size();k++) s.push_back(fam[k][i[k]]); f(s); size_t k=0; for(;k<d.size();k++){ if(++i[k]<fam[k].size()) break; i[k]=0; } if(k==d.size()) return; } }
