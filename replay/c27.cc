#include "h.h"
#include <tensor/fftw.h>
typedef N<cdouble> NC;
static NC dft(const NC&a,const std::vector<bool>&cv,int sg){ NC r=a; long n=prod(a.d); if(!n) return r; long s=1; for(size_t k=0;k<a.d.size();k++){ long m=a.d[k]; if(cv[k]){ NC q=r; for(long i=0;i<n;i++){ long x=(i/s)%m, b=i-x*s; cdouble t=0; for(long y=0;y<m;y++){ double ph=sg*2*M_PI*(double)((x*y)%m)/m; t+=r.v[b+y*s]*cdouble(cos(ph),sin(ph)); } q.v[i]=t; } r=q; } s*=m; } return r; }
static NC shf(const NC&a,const std::vector<bool>&cv,int dir){ NC r=a; long n=prod(a.d); if(!n) return r; long s=1; for(size_t k=0;k<a.d.size();k++){ long m=a.d[k]; if(cv[k]){ NC q=r; long h=dir==tensor::FFTW_FORWARD?m/2:(m+1)/2; for(long i=0;i<n;i++){ long x=(i/s)%m, b=i-x*s; q.v[b+((x+h)%m)*s]=r.v[i]; } r=q; } s*=m; } return r; }
static Booleans bl(const std::vector<bool>&v){ Booleans b((long)v.size()); for(size_t i=0;i<v.size();i++) b.at((long)i)=v[i]; return b; }
static void one(const NC&a){ long R=(long)a.d.size(); CT t=lib(a),cp(t); double tol=1e-10*(1+std::sqrt((double)a.v.size())); 
  for(int dir:{-1,1}){ std::vector<bool> all(R,true); std::string D=(dir<0?"forward ":"backward ")+str(a);
   run("fftw all",D,[&]{ same("fftw over all dimensions",D,tensor::fftw(t,dir),dft(a,all,dir),tol); same("source of fftw",D,t,a,0); });
   run("fftw_inplace all",D,[&]{ CT x(t); tensor::fftw_inplace(x,dir); same("fftw_inplace over all dimensions",D,x,dft(a,all,dir),tol); same("copy of the argument of fftw_inplace",D,t,a,0); });
   run("fftshift all",D,[&]{ CT s=tensor::fftshift(t,dir); same("fftshift over all dimensions",D,s,shf(a,all,dir),0); same("opposite fftshift undoes fftshift",D,tensor::fftshift(s,-dir),a,0); same("source of fftshift",D,t,a,0); });
   for(long k=0;k<R;k++){ std::vector<bool> m(R,false); m[k]=true; std::string E=D+" dimension "+std::to_string(k);
    run("fftw one",E,[&]{ same("fftw over one dimension",E,tensor::fftw(t,(tensor::index)k,dir),dft(a,m,dir),tol); same("source of fftw",E,t,a,0); });
    run("fftw_inplace one",E,[&]{ CT x(t); tensor::fftw_inplace(x,(tensor::index)k,dir); same("fftw_inplace over one dimension",E,x,dft(a,m,dir),tol); same("copy of the argument of fftw_inplace",E,t,a,0); });
    run("fftshift one",E,[&]{ CT s=tensor::fftshift(t,(tensor::index)k,dir); same("fftshift of one dimension",E,s,shf(a,m,dir),0); same("opposite fftshift undoes fftshift",E,tensor::fftshift(s,(tensor::index)k,-dir),a,0); same("source of fftshift",E,t,a,0); }); }
   for(long q=0;q<(1L<<R);q++){ if(R>5&&q%5) continue; std::vector<bool> m(R); for(long k=0;k<R;k++) m[k]=(q>>k)&1; std::string E=D+" marked "+std::to_string(q);
    run("fftw marked",E,[&]{ same("fftw over marked dimensions",E,tensor::fftw(t,bl(m),dir),dft(a,m,dir),tol); same("source of fftw",E,t,a,0); });
    run("fftw_inplace marked",E,[&]{ CT x(t); tensor::fftw_inplace(x,bl(m),dir); same("fftw_inplace over marked dimensions",E,x,dft(a,m,dir),tol); same("copy of the argument of fftw_inplace",E,t,a,0); });
    run("fftshift marked",E,[&]{ CT s=tensor::fftshift(t,bl(m),dir); same("fftshift of marked dimensions",E,s,shf(a,m,dir),0); same("opposite fftshift undoes fftshift",E,tensor::fftshift(s,bl(m),-dir),a,0); same("source of fftshift",E,t,a,0); }); } }
  same("copy of the source",str(a),cp,a,0); }
static void bad(const Dims&d){ CT t=lib(rnd_n<cdouble>(d)); long R=(long)d.size(); for(long k:{-1L,R,R+1,-R-1}){ std::string D=str(d)+" dimension "+std::to_string(k);
  must_abort("fftw unsuitable dimension",D,[&]{ CT x=tensor::fftw(t,(tensor::index)k,-1); }); must_abort("fftw_inplace unsuitable dimension",D,[&]{ CT x(t); tensor::fftw_inplace(x,(tensor::index)k,-1); }); must_abort("fftshift unsuitable dimension",D,[&]{ CT x=tensor::fftshift(t,(tensor::index)k,-1); }); }
  for(long n:{R-1,R+1}){ Booleans b(n); for(long i=0;i<n;i++) b.at(i)=true; std::string D=str(d)+" "+std::to_string(n)+" marks"; must_abort("fftw unsuitable marks",D,[&]{ CT x=tensor::fftw(t,b,-1); }); must_abort("fftw_inplace unsuitable marks",D,[&]{ CT x(t); tensor::fftw_inplace(x,b,-1); }); must_abort("fftshift unsuitable marks",D,[&]{ CT x=tensor::fftshift(t,b,1); }); } }
int main(int c,char**v){ init(c,v); auto rr=[&](const Dims&d){ one(rnd_n<cdouble>(d)); };
  // every placement of dimensions one among others, to rank five
  for(long n=0;n<243+81+27;n++){ long r=n<243?5:n<324?4:3,k=n<243?n:n<324?n-243:n-324; const long v[]={1,2,3}; Dims d; for(long i=0;i<r;i++,k/=3) d.push_back(v[k%3]); long t=1; for(long x:d) t*=x; if(t<=36) rr(d); }
  for(long n=1;n<=17;n++) rr({n}); for(auto&d:shapes(3,0,4,48)) rr(d); for(auto&d:std::vector<Dims>{{2,3,2,2},{1,1,1,1},{3,1,2,5},{1,2,1,2,3},{7,5},{5,1,7},{16,3},{0,3,2,1},{31},{64},{97},{128},{200},{2,70},{70,2},{33,20},{3,2,40},{2,40,2},{40,3,2},{2,2,2,1,2,2},{2,1,2,2,1,3,2}}) rr(d); if(thorough) for(int i=0;i<60;i++) rr({rint(1,12),rint(1,9),rint(1,5)}); for(auto&d:std::vector<Dims>{{3},{2,2},{1,2,3}}) bad(d); return finish(); }
