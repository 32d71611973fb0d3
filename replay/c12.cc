#include "h.h"
template<class E,class W> void one(const N<E>&a,long n,const N<W>&w,bool neg){ long r=a.d.size(); N<E> want=a; each(a.d,[&](const Dims&i){ want(i)=E(a(i))*w.v[i[n]]; }); int m=neg?n-r:n;
  std::string k="scale "+TN<E>()+TN<W>()+" ",d=str(a)+" dim "+std::to_string(m)+" by "+str(w);
  run(k+"value",d,[&]{ Tensor<E> A=lib(a); Tensor<W> V=lib(w); same(k+"value",d,scale(A,m,V),want,1e-13); same(k+"operand",d,A,a); same(k+"weights",d,V,w); });
  run(k+"in place",d,[&]{ Tensor<E> A=lib(a),B=A; Tensor<W> V=lib(w); scale_inplace(A,m,V); same(k+"in place",d,A,want,1e-13); same(k+"other owner",d,B,a); same(k+"weights",d,V,w); });
  run(k+"in place, single owner",d,[&]{ Tensor<E> A=lib(a); scale_inplace(A,m,lib(w)); same(k+"in place, single owner",d,A,want,1e-13); }); }
template<class E,class W> void all(E*,W*){ std::string k="scale "+TN<E>()+TN<W>()+" abort";
  for(auto&s:shapes(5,0,3,thorough?300:100)) { if(s.size()>3&&rint(0,3)&&!thorough) continue; for(long n=0;n<(long)s.size();n++){ N<E> a=rnd_n<E>(s); N<W> w=rnd_n<W>({s[n]}); one(a,n,w,rint(0,1)); if(s[n]%2==0&&s[n]) { N<W> w2=w; w2.d={2,s[n]/2}; one(a,n,w2,rint(0,1)); }
    if(rint(0,5)==0) for(long l=0;l<=4;l++) if(l!=s[n]){ N<W> b=rnd_n<W>({l}); std::string d=str(a)+" dim "+std::to_string(n)+" weights "+str(b); must_abort(k,d,[&]{ Tensor<E> t=scale(lib(a),n,lib(b)); }); must_abort(k,d,[&]{ Tensor<E> t=lib(a); scale_inplace(t,n,lib(b)); }); } }
    if(rint(0,5)==0){ long r=s.size(); N<E> a=rnd_n<E>(s); for(long n:{r,r+1,-r-1,-r-2,r+100}) for(long l=0;l<4;l++){ std::string d=str(a)+" dim "+std::to_string(n); must_abort(k,d,[&]{ Tensor<E> t=scale(lib(a),n,lib(rnd_n<W>({l}))); }); must_abort(k,d,[&]{ Tensor<E> t=lib(a); scale_inplace(t,n,lib(rnd_n<W>({l}))); }); } } }
  for(auto&s:big()) for(long n=0;n<(long)s.size();n++) one(rnd_n<E>(s),n,rnd_n<W>({s[n]}),n&1);
  for(int it=0;it<(thorough?300:30);it++){ Dims s; int r=rint(1,4); for(int i=0;i<r;i++) s.push_back(rint(1,9)); long n=rint(0,r-1); one(rnd_n<E>(s),n,rnd_n<W>({s[n]}),rint(0,1)); } }
int main(int c,char**v){ init(c,v); fine=true; all((double*)0,(double*)0); all((cdouble*)0,(cdouble*)0); all((cdouble*)0,(double*)0); return finish(); }
