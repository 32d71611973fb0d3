#include "sp.h"
template<class E> void left(const M<E>&m,const N<E>&t){ std::string d=TN<E>()+" "+str(m)+" times "+H::str(t);
  if(t.d[0]!=m.c){ must_abort("sparse*tensor sizes",d,[&]{ mmult(sp(m),lib(t)); }); return; }
  run("sparse*tensor",d,[&]{ Sparse<E> s=sp(m); Tensor<E> T=lib(t); Dims o=t.d; o[0]=m.r; N<E> w(o); each(o,[&](const Dims&i){ E a=0; Dims j=i; for(long k=0;k<m.c;k++){ j[0]=k; a+=m.get(i[0],k)*t(j); } w(i)=a; }); same("sparse*tensor",d,mmult(s,T),w); keeps("sparse*tensor",d,s,m); same("tensor argument",d,T,t); }); }
template<class E> void right(const N<E>&t,const M<E>&m){ std::string d=TN<E>()+" "+H::str(t)+" times "+str(m); size_t n=t.d.size()-1;
  if(t.d[n]!=m.r){ must_abort("tensor*sparse sizes",d,[&]{ mmult(lib(t),sp(m)); }); return; }
  run("tensor*sparse",d,[&]{ Sparse<E> s=sp(m); Tensor<E> T=lib(t); Dims o=t.d; o[n]=m.c; N<E> w(o); each(o,[&](const Dims&i){ E a=0; Dims j=i; for(long k=0;k<m.r;k++){ j[n]=k; a+=t(j)*m.get(k,i[n]); } w(i)=a; }); same("tensor*sparse",d,mmult(T,s),w); keeps("tensor*sparse",d,s,m); same("tensor argument",d,T,t); }); }
template<class E> void all(){
  auto S=shapes(4,0,3,thorough?36:18);
  for(auto&d:S) for(long r=0;r<=3;r++){ long q=d[0]; left<E>(rndpat<E>(r,q,60,true),rnd_n<E>(d)); q=d.back(); right<E>(rnd_n<E>(d),rndpat<E>(q,r,60,true)); if(r!=d[0]) left<E>(rndpat<E>(rint(0,3),r,60),rnd_n<E>(d)); if(r!=d.back()) right<E>(rnd_n<E>(d),rndpat<E>(r,rint(0,3),60)); }
  for(long r=1;r<=3;r++) for(long c=1;c<=3;c++){ unsigned long n=1ul<<(r*c); for(unsigned long k=0;k<n;k++) if(thorough||n<100||k%4==0){ M<E> m=pattern<E>(r,c,k); left<E>(m,rnd_n<E>(Dims{c})); left<E>(m,rnd_n<E>(Dims{c,2})); right<E>(rnd_n<E>(Dims{r}),m); right<E>(rnd_n<E>(Dims{2,r}),m); right<E>(rnd_n<E>(Dims{2,2,r}),m); left<E>(m,rnd_n<E>(Dims{c,2,2})); } }
  for(int q=0;q<6;q++){ long r=q%3?rint(40,140):2,c=q%3==1?3:rint(40,300); M<E> m=rndpat<E>(r,c,(int)rint(3,90)); left<E>(m,rnd_n<E>(Dims{c})); left<E>(m,rnd_n<E>(Dims{c,3})); right<E>(rnd_n<E>(Dims{r}),m); right<E>(rnd_n<E>(Dims{2,r}),m); }
  left<E>(rndpat<E>(3,4,60),rnd_n<E>(Dims{4,150})); right<E>(rnd_n<E>(Dims{150,4}),rndpat<E>(4,3,60));
  for(int q=0;q<(thorough?400:60);q++){ M<E> m=rndpat<E>(rint(1,9),rint(1,9),(int)rint(0,100)); Dims d={m.c},e; for(int k=0;k<q%4;k++){ d.push_back(rint(1,4)); e.push_back(rint(1,4)); } e.push_back(m.r); left<E>(m,rnd_n<E>(d)); right<E>(rnd_n<E>(e),m); }
}
int main(int c,char**v){ init(c,v); all<double>(); all<cdouble>(); return finish(); }
