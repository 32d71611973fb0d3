// sparse matrices for the harnesses: built from raw parts, read back from raw parts
#include "h.h"
#include <tensor/sparse.h>
template<class E> struct M { long r,c; std::vector<char> has; std::vector<E> v; M(long R=0,long C=0):r(R),c(C),has((size_t)(R*C),0),v((size_t)(R*C),E(0)){}
  E &at(long i,long j){ return v[(size_t)(i+r*j)]; } E get(long i,long j) const { return v[(size_t)(i+r*j)]; } };
template<class E> Sparse<E> sp(const M<E>&m){ std::vector<long> rs(1,0),co; std::vector<E> da;
  for(long i=0;i<m.r;i++){ for(long j=0;j<m.c;j++) if(m.has[(size_t)(i+m.r*j)]){ co.push_back(j); da.push_back(m.get(i,j)); } rs.push_back((long)co.size()); }
  Tensor<E> d((tensor::index)da.size()); for(size_t k=0;k<da.size();k++) d.at((long)k)=da[k];
  return Sparse<E>(ind(Dims{m.r,m.c}),ind(rs),ind(co),d); }
template<class E> N<E> dense(const M<E>&m){ N<E> a(Dims{m.r,m.c}); for(size_t k=0;k<a.v.size();k++) a.v[k]=m.v[k]; return a; }
template<class E> std::string str(const M<E>&m){ std::string s=std::to_string(m.r)+"x"+std::to_string(m.c)+" sparse"; for(long i=0;i<m.r;i++) for(long j=0;j<m.c;j++) if(m.has[(size_t)(i+m.r*j)]) s+=" ("+std::to_string(i)+","+std::to_string(j)+")="+H::str(m.get(i,j)); return s; }
static bool tiny=false;     // some elements are subnormal, tiny or huge
template<class E> E anz(){ if(tiny&&rint(0,9)==0){ double t[]={1e-310,-5e-324,1e-17,1e300,-1e-200,1+2.3e-16}; double x=t[rint(0,5)]; return E(x); } return elemnz((E*)0); }
// every pattern of an r x c matrix is numbered by a mask; zeros: some stored values are zero
template<class E> M<E> pattern(long r,long c,unsigned long mask,bool zeros=false){ M<E> m(r,c); for(long k=0;k<r*c;k++) if(mask>>k&1){ m.has[(size_t)k]=1; m.v[(size_t)k]= zeros&&rint(0,3)==0? E(0): anz<E>(); } return m; }
template<class E> M<E> rndpat(long r,long c,int dens,bool zeros=false){ M<E> m(r,c); for(long k=0;k<r*c;k++) if(rint(0,99)<dens){ m.has[(size_t)k]=1; m.v[(size_t)k]= zeros&&rint(0,3)==0? E(0): anz<E>(); } return m; }
// well-formedness and denotation, from the raw parts
template<class E> bool wf(const std::string&k,const std::string&what,const Sparse<E>&s){
  auto bad=[&](const std::string&x){ fail(k,what+": not well formed, "+x); return false; };
  if(s.priv_dims().size()!=2) return bad("dimensions"); long r=s.rows(),c=s.columns(); if(r<0||c<0) return bad("negative dimension");
  const Indices &rs=s.priv_row_start(),&co=s.priv_column(); const Tensor<E>&d=s.priv_data();
  if((long)rs.size()!=r+1) return bad("length of row offsets"); if(rs[0]!=0) return bad("first row offset"); for(long i=0;i<r;i++) if(rs[i+1]<rs[i]) return bad("row offsets decrease at row "+std::to_string(i));
  if(rs[r]!=(long)co.size()) return bad("last row offset "+std::to_string((long)rs[r])+" with "+std::to_string((long)co.size())+" stored columns"); if((long)d.size()!=(long)co.size()||d.rank()!=1) return bad("number of values");
  for(long i=0;i<r;i++) for(long k2=rs[i];k2<rs[i+1];k2++){ if(co[k2]<0||co[k2]>=c) return bad("column number out of range in row "+std::to_string(i)); if(k2>rs[i]&&co[k2]<=co[k2-1]) return bad("columns not increasing in row "+std::to_string(i)); }
  if(s.length()!=(r?rs[r]:0)) return bad("length()"); return true; }
template<class E> N<E> den(const Sparse<E>&s){ long r=s.rows(); N<E> a(Dims{r,(long)s.columns()}); for(long i=0;i<r;i++) for(long k=s.priv_row_start()[i];k<s.priv_row_start()[i+1];k++) a(Dims{i,(long)s.priv_column()[k]})=s.priv_data()[k]; return a; }
// s is well formed and denotes the matrix w
template<class E> void is(const std::string&k,const std::string&what,const Sparse<E>&s,const N<E>&w){ if(!wf(k,what,s)) return; N<E> a=den(s);
  if(a.d!=w.d){ fail(k,what+": dimensions "+H::str(a.d)+", contract says "+H::str(w.d)); return; }
  for(size_t q=0;q<a.v.size();q++) if(!(a.v[q]==w.v[q])){ fail(k,what+": element "+std::to_string(q)+" is "+H::str(a.v[q])+", contract says "+H::str(w.v[q])); return; } }
template<class E> void keeps(const std::string&k,const std::string&what,const Sparse<E>&s,const M<E>&m){ is(k,what+" (argument)",s,dense(m)); if((long)s.priv_column().size()!=(long)std::count(m.has.begin(),m.has.end(),1)) fail(k,what+": argument modified"); }
// matrices with very many columns: a list of entries, never expanded
template<class E> struct Big { long R,C; std::map<std::pair<long,long>,E> at; };
template<class E> Big<E> rndbig(long R,long C){ Big<E> b{R,C,{}}; const long p[]={0,3,(1L<<31)-1,1L<<31,(1L<<31)+3,(1L<<32)-1,1L<<32,(1L<<32)+3,C/2,C-1}; for(int k=0;k<5;k++){ long j=p[rint(0,9)]; if(j<C) b.at[{rint(0,R-1),j}]=elemnz((E*)0); } return b; }
template<class E> std::string str(const Big<E>&b){ std::string d=TN<E>()+" "+std::to_string(b.R)+"x"+std::to_string(b.C)+" sparse"; for(auto&x:b.at) d+=" ("+std::to_string(x.first.first)+","+std::to_string(x.first.second)+")="+H::str(x.second); return d; }
template<class E> Sparse<E> sp(const Big<E>&b){ Dims rs(1,0),co; std::vector<E> da; for(long i=0;i<b.R;i++){ for(auto&x:b.at) if(x.first.first==i){ co.push_back(x.first.second); da.push_back(x.second); } rs.push_back((long)co.size()); }
  Tensor<E> v((tensor::index)da.size()); for(size_t k=0;k<da.size();k++) v.at((long)k)=da[k]; return Sparse<E>(ind(Dims{b.R,b.C}),ind(rs),ind(co),v); }
template<class E> void is(const std::string&k,const std::string&what,const Sparse<E>&s,const Big<E>&b){ if(!wf(k,what,s)) return; if((long)s.rows()!=b.R||(long)s.columns()!=b.C){ fail(k,what+": dimensions"); return; }
  std::map<std::pair<long,long>,E> g; for(long i=0;i<b.R;i++) for(long q=s.priv_row_start()[i];q<s.priv_row_start()[i+1];q++) g[{i,s.priv_column()[q]}]=s.priv_data()[q];
  for(auto&x:g) if(!(x.second==E(0))&&!(b.at.count(x.first)&&b.at.at(x.first)==x.second)) fail(k,what+": entry ("+std::to_string(x.first.first)+","+std::to_string(x.first.second)+")="+H::str(x.second));
  for(auto&x:b.at) if(!(x.second==E(0))&&!g.count(x.first)) fail(k,what+": no entry ("+std::to_string(x.first.first)+","+std::to_string(x.first.second)+")"); }
