#include "h.h"
template<class E> void pair(const Dims&d,const Dims&e){
  N<E> a=rnd_n<E>(d),b=rnd_n<E>(e); Tensor<E> A=lib(a),B=lib(b); std::string desc=TN<E>()+" "+str(a)+", "+str(b);
  if(d.size()!=e.size()||d.size()>2){ must_abort("kron rank",desc,[&]{ kron(A,B); }); must_abort("kron2 rank",desc,[&]{ kron2(A,B); }); must_abort("kron2_sum rank",desc,[&]{ kron2_sum(A,B); }); return; }
  auto K=[](const N<E>&x,const N<E>&y){ // x outer
    Dims z; for(size_t q=0;q<x.d.size();q++) z.push_back(x.d[q]*y.d[q]); N<E> w(z);
    each(x.d,[&](const Dims&i){ each(y.d,[&](const Dims&j){ Dims p; for(size_t q=0;q<i.size();q++) p.push_back(j[q]+y.d[q]*i[q]); w(p)=x(i)*y(j); }); }); return w; };
  run("kron",desc,[&]{ same("kron",desc,kron(A,B),K(a,b)); same("kron2",desc,kron2(A,B),K(b,a)); same("kron argument",desc,A,a); same("kron argument",desc,B,b); });
  auto id=[](const Dims&s,bool one){ N<E> w(s); each(s,[&](const Dims&i){ w(i)= one||i[0]==i[1]? 1.0:0.0; }); return w; };
  bool v=d.size()==1;
  if(v||(d[0]==d[1]&&e[0]==e[1])) run("kron2_sum",desc,[&]{ N<E> w=K(id(d,v),b),u=K(a,id(e,v)); for(size_t q=0;q<w.v.size();q++) w.v[q]+=u.v[q]; same("kron2_sum",desc,kron2_sum(A,B),w); });
}
int main(int c,char**v){ init(c,v); fine=true;
  auto S=shapes(2,0,thorough?4:3); S.push_back({1,1,1}); S.push_back({2,1,2}); S.push_back({5}); S.push_back({4,4}); S.push_back({1,5}); S.push_back({5,2}); S.push_back({1,1,1,1});
  for(auto&d:S) for(auto&e:S){ pair<double>(d,e); pair<cdouble>(d,e); }
  for(int i=0;i<(thorough?200:40);i++){ long M=i%3?9:18; Dims d={rint(1,M),rint(1,M)},e={rint(1,M),rint(1,M)}; if(i%2){ d[1]=d[0]; e[1]=e[0]; } pair<double>(d,e); pair<cdouble>(d,e); }
  for(Dims d:{Dims{300},Dims{3},Dims{70}}) for(Dims e:{Dims{2},Dims{90}}){ pair<double>(d,e); pair<cdouble>(e,d); }
  for(Dims d:{Dims{1,90},Dims{90,1},Dims{40,2},Dims{2,40},Dims{35,35}}) for(Dims e:{Dims{2,2},Dims{1,3},Dims{3,1}}){ pair<double>(d,e); pair<cdouble>(d,e); pair<double>(e,d); pair<cdouble>(e,d); }
  return finish(); }
