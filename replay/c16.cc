#include "h.h"
template<class E> bool nr(E g,E w){ return std::abs(g-w)<=1e-12*(1+std::abs(w)); }
template<class E> void common(const std::string&T,const N<E>&a,const N<E>&b){ std::string d=T+str(a); long n=a.v.size(); Tensor<E> A=lib(a),B=lib(b);
  run("sum",d,[&]{ E w(0); for(auto x:a.v) w+=x; E g=sum(A); check(nr(g,w),"sum",d+" gives "+str(g)); if(n){ E m=mean(A); check(nr(m,w/E(double(n))),"mean",d+" gives "+str(m)); } });
  run("maximum norm",d,[&]{ double w=0; for(auto x:a.v) w=std::max(w,std::abs(x)); double g=norm0(A); check(nr(g,w),"maximum norm",d+" gives "+str(g)); });
  run("2-norm",d,[&]{ double w=0; for(auto x:a.v) w+=std::norm(x); double g=norm2(A); check(nr(g,std::sqrt(w)),"2-norm",d+" gives "+str(g)); });
  run("scalar product",d+str(b),[&]{ E w(0); for(long i=0;i<n;i++) w+=a.v[i]*cj(b.v[i]); E g=scprod(A,B); check(nr(g,w),"scalar product",d+" with "+str(b)+" gives "+str(g)); });
  same("reduction operand",d,A,a); same("reduction operand",d,B,b); }
template<class E> void all(E*){ std::string T=TN<E>(); typedef Tensor<E> X;
  auto S=shapes(4,0,3,thorough?300:100); for(auto&s:big()) S.push_back(s); for(auto&s:S){ N<E> a=rnd_n<E>(s); common<E>(T,a,rnd_n<E>(s)); long r=s.size(); X A=lib(a);
    for(long p=0;p<r;p++) for(long nn:{p,p-r}){ std::string d=T+str(a)+" along "+std::to_string(nn); if(s[p]==0) continue;
      run("mean along",d,[&]{ N<E> w; for(long k=0;k<r;k++) if(k!=p) w.d.push_back(s[k]); if(w.d.empty()) w.d={1}; w.v.assign(prod(w.d),E(0)); each(s,[&](const Dims&x){ Dims y; for(long k=0;k<r;k++) if(k!=p) y.push_back(x[k]); if(y.empty()) y={0}; w(y)+=a(x)/E(double(s[p])); });
        same("mean along",d,mean(A,nn),w,1e-12); same("mean operand",d,A,a); }); }
    if(r>=2) for(long nn:{r,r+2,-r-1,-r-4}) must_abort("mean bad dimension",T+str(a)+" "+std::to_string(nn),[&]{ X t=mean(A,nn); });
    if(r!=2) must_abort("infinity norm rank",T+str(a),[&]{ volatile double t=matrix_norminf(A); (void)t; }); }
  for(long R:{0,1,2,3,4,5,80,260}) for(long C:{0,1,2,3,4,5,90,300}) for(int t=0;t<3;t++){ if(R*C>8000) continue; N<E> a=rnd_n<E>({R,C}); std::string d=T+str(a); run("infinity norm",d,[&]{ double w=0; for(long i=0;i<R;i++){ double q=0; for(long j=0;j<C;j++) q+=std::abs(a({i,j})); w=std::max(w,q); } double g=matrix_norminf(lib(a)); check(nr(g,w),"infinity norm",d+" gives "+str(g)+", definition gives "+str(w)); }); }
  for(long n:{99,100,101,127,128,129,255,256,257,511,512,513,603,999,1000,1001,1023,1024,1025,1026,2047,2049,4095,4096,4097,4099,5003,8191,8193,10007}) for(long p:{-1L,0L,n/2,n-2,n-1}){ N<E> a=rnd_n<E>({n}); if(p>=0) a.v[p]=E(1e4); common<E>(T,a,rnd_n<E>({n})); }
  for(long n:{1,2,3,7,8,9,15,16,17,31,33,64,65}) for(long p=0;p<n;p++){ N<E> a=rnd_n<E>({n}); a.v[p]=E(rint(0,1)?100:-100); common<E>(T,a,rnd_n<E>({n})); } }
int main(int c,char**v){ init(c,v); fine=true; all((double*)0); all((cdouble*)0);
  for(long n:{1,2,3,4,5,7,8,9,16,17,33,64,65,100,256,257,1023,1025,4097,8193}) for(long q=0,p=0;p<n;q++,p=(n<=100||q<4||q>=20)?(q>=20&&n>100?(q<24?n-24+q:n):p+1):rint(p,n-1)) for(double e:{50.0,-50.0}){ N<double> a=rnd_n<double>({n}); a.v[p]=e; if(rint(0,3)==0) for(auto&x:a.v) x=-std::abs(x); if(rint(0,3)==0) for(auto&x:a.v) x=std::abs(x);
    run("extremum",str(a),[&]{ double lo=a.v[0],hi=lo; for(double x:a.v){ lo=std::min(lo,x); hi=std::max(hi,x); } double g=min(lib(a)),h=max(lib(a)); check(g==lo,"minimum",str(a)+" gives "+str(g)); check(h==hi,"maximum",str(a)+" gives "+str(h)); }); }
  for(auto&s:shapes(3,0,2,60)) if(!prod(s)){ RT z=lib(rnd_n<double>(s)); must_abort("minimum of nothing",str(s),[&]{ volatile double t=min(z); (void)t; }); must_abort("maximum of nothing",str(s),[&]{ volatile double t=max(z); (void)t; }); }
  return finish(); }
