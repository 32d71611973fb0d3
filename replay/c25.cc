#include "h.h"
#include "lapack_guard.h"
#include <tensor/linalg.h>
typedef long double L; typedef std::complex<L> Z;
struct Mt { long m,n; std::vector<Z> v; Mt(long a=0,long b=0):m(a),n(b),v((size_t)(a*b)){} Z&operator()(long i,long j){return v[i+m*j];} Z operator()(long i,long j)const{return v[i+m*j];} };
static Mt mul(const Mt&a,const Mt&b){ Mt r(a.m,b.n); for(long i=0;i<a.m;i++) for(long j=0;j<b.n;j++){ Z t=0; for(long k=0;k<a.n;k++) t+=a(i,k)*b(k,j); r(i,j)=t; } return r; }
static Mt adj(const Mt&a){ Mt r(a.n,a.m); for(long i=0;i<a.m;i++) for(long j=0;j<a.n;j++) r(j,i)=std::conj(a(i,j)); return r; }
static Mt id(long n){ Mt r(n,n); for(long i=0;i<n;i++) r(i,i)=1; return r; }
static L nrm(const Mt&a){ L t=0; for(auto x:a.v) t+=std::norm(x); return std::sqrt(t); }
static Mt sub(const Mt&a,const Mt&b){ Mt r=a; for(size_t i=0;i<r.v.size();i++) r.v[i]-=b.v[i]; return r; }
template<class E> Mt mt(const N<E>&a,long m=-1,long n=-1){ Mt r(m<0?a.d[0]:m,n<0?a.d[1]:n); for(size_t i=0;i<a.v.size();i++) r.v[i]=Z(std::real(a.v[i]),std::imag(a.v[i])); return r; }
static void small(const std::string&k,const std::string&what,const std::string&D,const Mt&e,L scale){ L x=nrm(e); if(!(x<=1e-11L*(scale+1e-300L))) fail(k,what+" is off by "+str((double)x)+" for "+D); }
template<class V> bool dims(const std::string&k,const std::string&D,const V&t,const Dims&d){ Dims g=dimsof(t.dimensions()); if(g==d&&(long)t.size()==prod(d)) return true; fail(k,"dimensions "+str(g)+", contract says "+str(d)+" for "+D); return false; }
static long rankof(Mt a,L tol=1e-9L){ long r=0; for(long j=0;j<a.n&&r<a.m;j++){ long p=r; for(long i=r;i<a.m;i++) if(std::abs(a(i,j))>std::abs(a(p,j))) p=i; if(std::abs(a(p,j))<=tol) continue; for(long q=0;q<a.n;q++) std::swap(a(p,q),a(r,q)); for(long i=r+1;i<a.m;i++){ Z f=a(i,j)/a(r,j); for(long q=j;q<a.n;q++) a(i,q)-=f*a(r,q); } r++; } return r; }
template<class E> void t_solve(const N<E>&a,const N<E>&b){ std::string T=TN<E>()+"solve",D=T+" "+str(a)+" "+str(b); Mt A=mt(a); if(rankof(A)<A.m) return; long q=1; for(size_t i=1;i<b.d.size();i++) q*=b.d[i];
  run(T,D,[&]{ Tensor<E> ta=lib(a),tb=lib(b),ca(ta),cb(tb),x=linalg::solve(ta,tb); if(!dims(T,D,x,b.d)) return; Mt X=mt(plain(x),A.m,q),B=mt(b,A.m,q); small(T,"A X - B",D,sub(mul(A,X),B),nrm(A)*nrm(X)+nrm(B));
    same(T,"argument of "+D,ta,a); same(T,"argument of "+D,tb,b); same(T,"copy of the argument of "+D,ca,a); same(T,"copy of the argument of "+D,cb,b); }); }
template<class E> void t_svd(const N<E>&a){ Mt A=mt(a); long m=A.m,n=A.n,k=std::min(m,n); for(int o=0;o<8;o++){ bool u=o&1,v=o&2,e=o&4; std::string T=TN<E>()+"svd",D=T+(u?" U":"")+(v?" VT":"")+(e?" economic ":" ")+str(a);
  run(T,D,[&]{ Tensor<E> ta=lib(a),ca(ta),U,V; RT s=linalg::svd(ta,u?&U:0,v?&V:0,e); same(T,"argument of "+D,ta,a); same(T,"copy of the argument of "+D,ca,a);
    if(!dims(T,D,s,{k})||(u&&!dims(T+" U",D,U,{m,e?k:m}))||(v&&!dims(T+" VT",D,V,{e?k:n,n}))) return;
    for(long i=0;i<k;i++) if(!(s[i]>=0)||(i&&!(s[i]<=s[i-1]))) fail(T,"singular values not ordered and non-negative for "+D+": "+str(plain(s)));
    L f=0; for(long i=0;i<k;i++) f+=(L)s[i]*s[i]; if(!(std::abs(std::sqrt(f)-nrm(A))<=1e-11L*(1e-300L+nrm(A)))) fail(T,"singular values do not have the norm of the matrix for "+D+": "+str(plain(s)));
    Mt mu=u?mt(plain(U)):Mt(),mv=v?mt(plain(V)):Mt(); if(u) small(T+" U","U^+ U - 1",D,sub(mul(adj(mu),mu),id(mu.n)),1+mu.n); if(v) small(T+" VT","VT VT^+ - 1",D,sub(mul(mv,adj(mv)),id(mv.m)),1+mv.m);
    auto diagm=[&](long p,long q){ Mt S(p,q); for(long i=0;i<k;i++) S(i,i)=s[i]; return S; };
    if(u&&v) small(T,"U S VT - A",D,sub(mul(mul(mu,diagm(mu.n,mv.m)),mv),A),nrm(A));
    if(u){ Mt w=mul(adj(mu),A); Mt S2=mul(w,adj(w)); small(T+" U","U^+ A A^+ U - S^2",D,sub(S2,mul(diagm(mu.n,k),adj(diagm(mu.n,k)))),nrm(A)*nrm(A)); }
    if(v){ Mt w=mul(A,adj(mv)); Mt S2=mul(adj(w),w); small(T+" VT","VT A^+ A VT^+ - S^2",D,sub(S2,mul(diagm(mv.m,k),adj(diagm(mv.m,k)))),nrm(A)*nrm(A)); } }); } }
template<class E> void t_ssvd(const N<E>&a,const N<E>&b){ std::string T=TN<E>()+"solve_with_svd",D=T+" "+str(a)+" "+str(b); Mt A=mt(a); long q=1; for(size_t i=1;i<b.d.size();i++) q*=b.d[i]; Dims xd=b.d; xd[0]=A.n;
  run(T,D,[&]{ Tensor<E> ta=lib(a),tb=lib(b),x=linalg::solve_with_svd(ta,tb,1e-9); if(!dims(T,D,x,xd)) return; Mt X=mt(plain(x),A.n,q),B=mt(b,A.m,q); Mt r=sub(mul(A,X),B); L sc=nrm(A)*nrm(X)+nrm(B);
    small(T,"A^+ (A X - B), zero for a least-squares solution,",D,mul(adj(A),r),1e3L*(nrm(A)+1)*sc); 
    // minimal norm: X is orthogonal to the null space, i.e. adding X's projection on the rows changes nothing: rank of [A; X^+] equals rank of A
    Mt S(A.m+q,A.n); for(long i=0;i<A.m;i++) for(long j=0;j<A.n;j++) S(i,j)=A(i,j); for(long i=0;i<q;i++) for(long j=0;j<A.n;j++) S(A.m+i,j)=std::conj(X(j,i)); if(rankof(S,1e-7L)!=rankof(A,1e-7L)) fail(T,"the solution is not orthogonal to the null space for "+D);
    same(T,"argument of "+D,ta,a); same(T,"argument of "+D,tb,b); }); }
template<class E> void t_sym(const N<E>&a){ Mt A=mt(a); long n=A.n; for(int o=0;o<2;o++){ std::string T=TN<E>()+"eig_sym",D=T+(o?" vectors ":" ")+str(a);
  run(T,D,[&]{ Tensor<E> ta=lib(a),ca(ta),V; RT s=linalg::eig_sym(ta,o?&V:0); same(T,"argument of "+D,ta,a); same(T,"copy of the argument of "+D,ca,a); if(!dims(T,D,s,{n})||(o&&!dims(T,D,V,{n,n}))) return;
    L t1=0,t2=0; for(long i=0;i<n;i++){ t1+=s[i]; t2+=(L)s[i]*s[i]; } Z tr=0; for(long i=0;i<n;i++) tr+=A(i,i); if(!(std::abs(tr-t1)<=1e-11L*(1e-300L+nrm(A)))||!(std::abs(std::sqrt(t2)-nrm(A))<=1e-11L*(1e-300L+nrm(A)))) fail(T,"eigenvalues do not have the trace and norm of the matrix for "+D+": "+str(plain(s)));
    if(o){ Mt v=mt(plain(V)),S(n,n); for(long i=0;i<n;i++) S(i,i)=s[i]; small(T,"V^+ V - 1",D,sub(mul(adj(v),v),id(n)),1+n); small(T,"A V - V D",D,sub(mul(A,v),mul(v,S)),nrm(A)); } }); } }
template<class E> void t_eig(const N<E>&a){ Mt A=mt(a); long n=A.n; for(int o=0;o<4;o++){ bool r=o&1,l=o&2; std::string T=TN<E>()+"eig",D=T+(r?" right":"")+(l?" left ":" ")+str(a);
  run(T,D,[&]{ Tensor<E> ta=lib(a),ca(ta); CT R,Lv,s=linalg::eig(ta,r?&R:0,l?&Lv:0); same(T,"argument of "+D,ta,a); same(T,"copy of the argument of "+D,ca,a); if(!dims(T,D,s,{n})||(r&&!dims(T+" right",D,R,{n,n}))||(l&&!dims(T+" left",D,Lv,{n,n}))) return;
    Z t1=0,t2=0,tr=0,tr2=0; Mt S(n,n),A2=mul(A,A); for(long i=0;i<n;i++){ Z x(s[i].real(),s[i].imag()); S(i,i)=x; t1+=x; t2+=x*x; tr+=A(i,i); tr2+=A2(i,i); }
    if(!(std::abs(tr-t1)<=1e-10L*(1e-300L+nrm(A)))||!(std::abs(tr2-t2)<=1e-10L*(1e-300L+nrm(A)*nrm(A)))) fail(T,"eigenvalues do not have the traces of the matrix for "+D+": "+str(plain(s)));
    for(int w=0;w<2;w++) if(w?l:r){ Mt v=mt(plain(w?Lv:R)); std::string K=T+(w?" left":" right"); if(w) small(K,"L^+ A - D L^+",D,sub(mul(adj(v),A),mul(S,adj(v))),nrm(A)); else small(K,"A R - R D",D,sub(mul(A,v),mul(v,S)),nrm(A));
      for(long j=0;j<n;j++){ L c=0; for(long i=0;i<n;i++) c+=std::norm(v(i,j)); if(!(c>0.25L)) fail(K,"column "+std::to_string(j)+" is not an eigenvector for "+D); } } }); } }
static Mt expo(const Mt&A){ L x=nrm(A); int s=0; while(x>0.25L){ x/=2; s++; } Mt B=A; for(auto&z:B.v) z/=std::pow((L)2,s); Mt r=id(A.n),t=id(A.n); for(int k=1;k<30;k++){ t=mul(t,B); for(auto&z:t.v) z/=(L)k; for(size_t i=0;i<r.v.size();i++) r.v[i]+=t.v[i]; } while(s--) r=mul(r,r); return r; }
template<class E> void t_exp(const N<E>&a,int order){ std::string T=TN<E>()+"expm",D=T+" order "+std::to_string(order)+" "+str(a); Mt A=mt(a); run(T,D,[&]{ Tensor<E> ta=lib(a),ca(ta),x=order==7?linalg::expm(ta):linalg::expm(ta,order); if(!dims(T,D,x,a.d)) return; Mt X=mt(plain(x)),W=expo(A); small(T,"exp(A)",D,sub(X,W),10*(1+nrm(A))*std::max(nrm(W),std::exp(std::min((L)60,nrm(A)/2)))); same(T,"argument of "+D,ta,a); same(T,"copy of the argument of "+D,ca,a); }); }
template<class E> N<E> herm(N<E> a){ long n=a.d[0]; for(long i=0;i<n;i++){ for(long j=0;j<i;j++) a.v[j+n*i]=cj(a.v[i+n*j]); a.v[i+n*i]=std::real(a.v[i+n*i]); } return a; }
template<class E> void square(const N<E>&a){ long n=a.d[0]; t_eig(a); t_sym(herm(a)); for(long q:{1L,3L}) t_solve(a,rnd_n<E>({n,q})); t_solve(a,rnd_n<E>({n})); t_solve(a,rnd_n<E>({n,2,2})); t_solve(a,rnd_n<E>({n,0}));
  N<E> h=a; t_exp(h,7); for(auto&x:h.v) x*=0.01; t_exp(h,7); t_exp(h,8); t_exp(h,9); for(auto&x:h.v) x*=60; t_exp(h,7); }
template<class E> void any(const N<E>&a){ t_svd(a); for(long q:{1L,2L}) t_ssvd(a,rnd_n<E>({a.d[0],q})); t_ssvd(a,rnd_n<E>({a.d[0]})); if(a.d[0]==a.d[1]) square(a); }
template<class E> void all(){ long K=thorough?9:6;
  for(long m=1;m<=K;m++) for(long n=1;n<=K;n++){ any(rnd_n<E>({m,n})); N<E> z({m,n}); for(auto&x:z.v) x=0; any(z); N<E> d=z; for(long i=0;i<std::min(m,n);i++) d.v[i+m*i]=(E)(double)(i%2?2:-3); any(d); N<E> r=z; auto x=rnd_n<E>({m},true),y=rnd_n<E>({n},true); for(long i=0;i<m;i++) for(long j=0;j<n;j++) r.v[i+m*j]=x.v[i]*y.v[j]; any(r);
    if(m==n){ N<E> e=z; for(long i=0;i<n;i++) e.v[i+m*i]=1.0; any(e); N<E> p=z; for(long i=0;i<n;i++) p.v[i+m*((i+1)%n)]=1.0; any(p); N<E> J=e; for(long i=0;i+1<n;i++) J.v[i+m*(i+1)]=1.0; any(J); N<E> t=rnd_n<E>({m,n}); for(long i=0;i<n;i++) for(long j=0;j<i;j++) t.v[i+m*j]=0; any(t);
      for(long s=0;s<(1L<<(n-1));s++){ if(s&(s>>1)) continue; N<E> R=z; for(long i=0;i<n;i++){ R.v[i+m*i]=(double)(i+1); if((s>>i)&1){ R.v[i+m*(i+1)]=2.0; R.v[i+1+m*i]=-3.0; } } t_eig(R); } } }
  for(double sc:{1e-20,1e-5,1e20}) for(long n=1;n<=5;n++) for(int z=0;z<3;z++){ N<E> a=rnd_n<E>({n,n}); for(auto&x:a.v) x*=sc; t_eig(a); t_sym(herm(a)); t_svd(a); t_solve(a,rnd_n<E>({n,2})); }
  for(double t:{0.3,10.0,1000.0,40000.0,-123456.5}) for(long n=2;n<=4;n++) for(long p=0;p+1<n;p++){ N<E> a({n,n}); for(auto&x:a.v) x=0; a.v[p+n*(p+1)]=-t; a.v[p+1+n*p]=t; std::string T=TN<E>()+"expm of a rotation generator",D=str(a); run(T,D,[&]{ Tensor<E> x=linalg::expm(lib(a)); for(long i=0;i<n;i++) for(long j=0;j<n;j++){ bool in=i>=p&&i<=p+1&&j>=p&&j<=p+1; double w=!in? i==j : i==j? std::cos(t) : i<j? -std::sin(t) : std::sin(t); if(!(std::abs(x(i,j)-w)<=1e-12*(1+std::abs(t)))) fail(T,"element is "+str(x(i,j))+", contract says "+str(w)+" for "+D); } }); }
  for(auto s:std::vector<Dims>{{12,3},{3,12},{17,17},{1,20},{20,1}}) any(rnd_n<E>(s));
  for(long n=1;n<=3;n++){ N<E> a=rnd_n<E>({n,n}); N<E> z({n,n}); for(auto&x:z.v) x=0; Tensor<E> tz=lib(z); must_abort("singular system",str(z),[&]{ auto x=linalg::solve(tz,lib(rnd_n<E>({n}))); }); }
  { std::string T=TN<E>()+"empty system"; for(auto&d:std::vector<Dims>{{0},{0,2},{0,3,2}}) run(T,str(d),[&]{ Tensor<E> a(0,0),b(ind(d)),x=linalg::solve(a,b); dims(T,str(d),x,d); }); }
  for(auto&d:std::vector<Dims>{{2,3},{3,2},{1,2},{4,1},{0,2},{2,0},{2},{1,1,1},{2,2,2},{2,3,2}}){ Tensor<E> t=lib(rnd_n<E>(d)); std::string D=TN<E>()+" "+str(d); CT c1; Tensor<E> c2;
    must_abort("solve inadmissible",D,[&]{ auto x=linalg::solve(t,lib(rnd_n<E>({d[0]}))); }); must_abort("eig inadmissible",D,[&]{ auto x=linalg::eig(t); }); must_abort("eig inadmissible",D,[&]{ auto x=linalg::eig(t,&c1); }); must_abort("eig_sym inadmissible",D,[&]{ auto x=linalg::eig_sym(t,&c2); }); must_abort("expm inadmissible",D,[&]{ auto x=linalg::expm(t); });
    if(d.size()!=2||d[0]*d[1]==0) must_abort("svd inadmissible",D,[&]{ auto x=linalg::svd(t,&c2); }); }
  for(long n=1;n<=4;n++) for(long q=1;q<=5;q++) if(q!=n){ Tensor<E> a(n,n); a.fill_with_zeros(); for(long i=0;i<n;i++) a.at(i,i)=1.0; must_abort("solve mismatch",TN<E>()+" "+std::to_string(n)+" "+std::to_string(q),[&]{ auto x=linalg::solve(a,lib(rnd_n<E>({q}))); }); must_abort("solve mismatch",TN<E>()+" "+std::to_string(n)+" "+std::to_string(q)+"x"+std::to_string(n),[&]{ auto x=linalg::solve(a,lib(rnd_n<E>({q,n}))); }); } }
template<class E> void large(){ for(Dims d:{Dims{1,25},Dims{25,1},Dims{20,20},Dims{33,12},Dims{12,33},Dims{70,3},Dims{3,70}}){ N<E> a=rnd_n<E>(d); t_svd(a); t_ssvd(a,rnd_n<E>({d[0],2})); t_ssvd(a,rnd_n<E>({d[0]})); }
  for(long n:{16,20,33,40}){ N<E> a=rnd_n<E>({n,n}); t_eig(a); t_sym(herm(a)); t_solve(a,rnd_n<E>({n,3})); t_solve(a,rnd_n<E>({n})); t_solve(a,rnd_n<E>({n,2,40})); } N<E> a=rnd_n<E>({3,3}); t_solve(a,rnd_n<E>({3,300})); }
int main(int c,char**v){ init(c,v); all<double>(); all<cdouble>(); large<double>(); large<cdouble>(); if(thorough) for(int i=0;i<20;i++){ Dims d{rint(1,14),rint(1,14)}; any(rnd_n<double>(d)); any(rnd_n<cdouble>(d)); long n=rint(1,14); any(rnd_n<double>({n,n})); any(rnd_n<cdouble>({n,n})); } return finish(); }
