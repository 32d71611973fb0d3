#include "h.h"
#include <tensor/linalg.h>
#include <tensor/flags.h>
#include "linalg/find_blocks.hpp"
template<class E> static E val(double,double); template<> double val(double a,double){ return a; } template<> cdouble val(double a,double b){ return cdouble(a,b); }
template<class E> static E nonzero(){ for(;;){ E x=val<E>((double)rint(-5,5),rnd()%3?(double)rint(-5,5):0.0); if(x!=0.0){ return rnd()%6?x:x*1e-200; } } }
template<class E> static void blocks(const N<E>&a){ Tensor<E> t=lib(a),cp(t); long n=a.d[0],m=a.d[1]; std::string D=TN<E>()+str(a);
  run("find_blocks",D,[&]{ tensor::index nb=-7; Indices *r=0,*c=0; bool some=linalg::find_blocks(t,&nb,&r,&c); same("argument of find_blocks",D,t,a,0); same("copy of the argument",D,cp,a,0);
   if(!some){ check(nb==1,"one block when no lists are given",D+" blocks "+str((long)nb)); return; } std::vector<int> rb(n,-1),cb(m,-1); check(nb>=0&&nb!=1,"number of blocks",D+" "+str((long)nb));
   for(long b=0;b<nb;b++){ check(r[b].size()>0&&c[b].size()>0,"blocks have rows and columns",D); for(long i=0;i<(long)r[b].size();i++){ long x=r[b][i]; if(x<0||x>=n||rb[x]>=0) fail("a row belongs to one block",D+" row "+str(x)); else rb[x]=b; } for(long i=0;i<(long)c[b].size();i++){ long x=c[b][i]; if(x<0||x>=m||cb[x]>=0) fail("a column belongs to one block",D+" column "+str(x)); else cb[x]=b; } }
   for(long j=0;j<m;j++) for(long i=0;i<n;i++) if(a.v[i+n*j]!=0.0) check(rb[i]>=0&&rb[i]==cb[j],"no element couples different blocks",D+" element "+str(i)+","+str(j)+" in blocks "+str(rb[i])+","+str(cb[j]));
   for(long i=0;i<n;i++){ bool z=true; for(long j=0;j<m;j++) if(a.v[i+n*j]!=0.0) z=false; if(z) check(rb[i]<0,"rows of a block have elements",D); } for(long j=0;j<m;j++){ bool z=true; for(long i=0;i<n;i++) if(a.v[i+n*j]!=0.0) z=false; if(z) check(cb[j]<0,"columns of a block have elements",D); }
   delete[] r; delete[] c; }); }
template<class E> static void svds(const N<E>&a,bool strict=true){ Tensor<E> t=lib(a),cp(t); long n=a.d[0],m=a.d[1],k=std::min(n,m); double big=0; for(auto&x:a.v) big=std::max(big,std::abs(x)); double tol=1e-10*(big>0?big:1)*(n+m);
  for(int eco=0;eco<2;eco++){ std::string D=TN<E>()+str(a)+(eco?" economic":""); run("block_svd",D,[&]{ Tensor<E> U,V; RT s=linalg::block_svd(t,&U,&V,eco), s0=linalg::svd(t), s1=linalg::block_svd(t,0,0,eco); Tensor<E> U2,V2; RT s2=linalg::block_svd(t,&U2,0,eco),s3=linalg::block_svd(t,0,&V2,eco);
    same("argument of block_svd",D,t,a,0); same("copy of the argument",D,cp,a,0); check((long)s.size()==k&&(long)s1.size()==k&&s2.size()==k&&s3.size()==k,"number of singular values",D+" "+str((long)s.size())); if((long)s.size()!=k) return;
    for(long i=0;i<k;i++){ check(std::abs(s[i]-s0[i])<=tol,"singular values of the matrix",D+" value "+str(i)+": "+str(s[i])+" instead of "+str(s0[i])); check(std::abs(s[i]-s1[i])<=tol&&std::abs(s[i]-s2[i])<=tol&&std::abs(s[i]-s3[i])<=tol,"values do not depend on the wanted factors",D); check(s[i]>=0&&(i==0||s[i]<=s[i-1]),"values are sorted",D); }
    check(dimsof(U.dimensions())==(Dims{n,eco?k:n})&&dimsof(V.dimensions())==(Dims{eco?k:m,m}),"shape of the factors",D+" "+str(dimsof(U.dimensions()))+str(dimsof(V.dimensions()))); check(U2.dimensions().size()==2&&V2.dimensions().size()==2&&(long)U2.rows()==n&&(long)V2.columns()==m,"shape of a single factor",D);
    for(long i=0;i<n;i++) for(long j=0;j<m;j++){ E x=val<E>(0,0); for(long q=0;q<k;q++) x+=U(i,q)*s[q]*V(q,j); check(std::abs(x-a.v[i+n*j])<=tol,"factors reproduce the matrix",D+" element "+str(i)+","+str(j)+": "+str(x)+" instead of "+str(a.v[i+n*j])); }
    for(long p=0;p<k;p++) for(long q=0;q<=p;q++) if(s[p]>1e-6*big&&big>0){ E x=val<E>(0,0),y=x; for(long i=0;i<n;i++) x+=cj(U(i,p))*U(i,q); for(long j=0;j<m;j++) y+=V(p,j)*cj(V(q,j)); check(std::abs(x-(p==q?1.0:0.0))<1e-8&&std::abs(y-(p==q?1.0:0.0))<1e-8,"vectors of non-zero values are orthonormal",D+" vectors "+str(p)+","+str(q)); } }); } }
template<class E> static void pattern(long n,long m,long bits){ N<E> a(Dims{n,m}); for(long q=0;q<n*m;q++) if(bits>>q&1) a.v[q]=nonzero<E>(); blocks(a); for(auto&x:a.v) if(std::abs(x)<1e-100) x*=1e200; svds(a); }
template<class E> static void perm(int B=-1){ long n=0,m=0; std::vector<int> rb,cb; if(B<0) B=rnd()%5; for(int b=0;b<B;b++){ int r=1+rnd()%3,c=1+rnd()%3; for(int i=0;i<r;i++) rb.push_back(b); for(int i=0;i<c;i++) cb.push_back(b); } for(int i=rnd()%3;i>0;i--) rb.push_back(-1); for(int i=rnd()%3;i>0;i--) cb.push_back(-2); while(rnd()%2&&rb.size()<cb.size()) rb.push_back(-1); while(rnd()%2&&cb.size()<rb.size()) cb.push_back(-2); if(rb.empty()) rb.push_back(-1); if(cb.empty()) cb.push_back(-2);
  for(size_t i=rb.size();i>1;i--) std::swap(rb[i-1],rb[rnd()%i]); for(size_t i=cb.size();i>1;i--) std::swap(cb[i-1],cb[rnd()%i]); n=rb.size(); m=cb.size(); N<E> a(Dims{n,m}); int dens=1+rnd()%4; for(long j=0;j<m;j++) for(long i=0;i<n;i++) if(rb[i]==cb[j]&&(int)(rnd()%4)<dens) a.v[i+n*j]=nonzero<E>(); blocks(a); for(auto&x:a.v) if(std::abs(x)<1e-100) x*=1e200; svds(a); }
// chains: every column joins the blocks of two rows, met in a scrambled order
template<class E> static void chain(long n,long m,int stride){ N<E> a(Dims{n,m}); for(long j=0;j<m;j++){ long r=(j*stride)%n; a.v[r+n*j]=nonzero<E>(); if(rnd()%2) a.v[(r+1+rnd()%2)%n+n*j]=nonzero<E>(); } blocks(a); for(auto&x:a.v) if(std::abs(x)<1e-100) x*=1e200; svds(a); }
int main(int c,char**v){ init(c,v);
  for(auto d:std::vector<Dims>{{1,1},{1,2},{2,1},{1,3},{3,1},{2,2},{2,3},{3,2},{1,5}}) for(long b=0;b<(1L<<(d[0]*d[1]));b++){ pattern<double>(d[0],d[1],b); pattern<cdouble>(d[0],d[1],b); }
  for(long b=0;b<512;b++) pattern<double>(3,3,b); for(auto d:std::vector<Dims>{{2,4},{4,2}}) for(long b=0;b<256;b+=thorough?1:3) pattern<double>(d[0],d[1],b); for(int t=0;t<(thorough?4000:150);t++){ pattern<double>(4,4,rnd()&rnd()&65535); pattern<double>(3,5,rnd()&rnd()&32767); pattern<double>(5,3,rnd()&rnd()&32767); }
  for(int B:{6,9,13,20,40}) for(int t=0;t<(thorough?20:3);t++){ perm<double>(B); perm<cdouble>(B); } for(int s:{1,3,7,11}){ chain<double>(30,26,s); chain<cdouble>(26,30,s); chain<double>(45,8,s); chain<double>(8,45,s); }
  for(int t=0;t<(thorough?1500:150);t++){ perm<double>(); perm<cdouble>(); } for(int t=0;t<(thorough?400:40);t++) for(int s:{1,2,3,5}){ chain<double>(4+rnd()%6,4+rnd()%6,s); chain<cdouble>(3+rnd()%5,3+rnd()%5,s); }
  return finish(); }
