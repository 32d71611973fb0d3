// the arrays handed to LAPACK, which is not instrumented, must have the sizes that its documentation asks for
#ifndef LAPACK_GUARD_H
#define LAPACK_GUARD_H
#include <dlfcn.h>
extern "C" void *__asan_region_is_poisoned(void *beg,size_t size);
namespace G {
static void room(const char*r,const char*what,const void*p,long bytes){ if(bytes>0&&__asan_region_is_poisoned((void*)p,(size_t)bytes)) H::fail("room for LAPACK",std::string(r)+": argument "+what+" has less than "+std::to_string(bytes)+" bytes, in "+H::ctx); }
static void *next(const char*n){ void*f=dlsym(RTLD_NEXT,n); if(!f){ printf("FAIL setup: no %s\n",n); _exit(1); } return f; }
static long mx(long a,long b){ return a>b?a:b; } static long mn(long a,long b){ return a<b?a:b; }
// columns of leading dimension ld
static void mat(const char*r,const char*w,const void*p,long ld,long rows,long cols,long e){ if(rows>0&&cols>0){ if(ld<rows) H::fail("room for LAPACK",std::string(r)+": leading dimension of "+w+" in "+H::ctx); else room(r,w,p,((cols-1)*ld+rows)*e); } }
static void svd(const char*f,char ju,char jv,long m,long n,const void*a,long lda,const void*s,const void*u,long ldu,const void*v,long ldv,const void*w,long lw,const void*rw,long e){
  long k=mn(m,n); mat(f,"A",a,lda,m,n,e); room(f,"S",s,k*8); if(ju=='A'||ju=='S') mat(f,"U",u,ldu,m,ju=='A'?m:k,e); if(jv=='A'||jv=='S') mat(f,"VT",v,ldv,jv=='A'?n:k,n,e); room(f,"WORK",w,lw*e); if(e==16) room(f,"RWORK",rw,5*k*8); }
static void ev(const char*f,long n,const void*a,long lda,const void*w,const void*wk,long lw,const void*rw,long e){ mat(f,"A",a,lda,n,n,e); room(f,"W",w,n*8); room(f,"WORK",wk,lw*e); if(e==16) room(f,"RWORK",rw,mx(1,3*n-2)*8); }
static void gev(const char*f,char jl,char jr,long n,const void*a,long lda,const void*w,const void*wi,const void*l,long ldl,const void*r,long ldr,const void*wk,long lw,const void*rw,long e){
  mat(f,"A",a,lda,n,n,e); room(f,"W",w,n*e); if(wi) room(f,"WI",wi,n*8); if(jl=='V') mat(f,"VL",l,ldl,n,n,e); if(jr=='V') mat(f,"VR",r,ldr,n,n,e); room(f,"WORK",wk,lw*e); if(e==16) room(f,"RWORK",rw,2*n*8); }
static void sv(const char*f,long n,long q,const void*a,long lda,const void*p,const void*b,long ldb,long e){ mat(f,"A",a,lda,n,n,e); room(f,"IPIV",p,n*(long)sizeof(int)); mat(f,"B",b,ldb,n,q,e); }
}
#define GNEXT(n) static auto f=(decltype(&n))G::next(#n);
extern "C" {
int dgesvd_(char*ju,char*jv,int*m,int*n,void*a,int*lda,void*s,void*u,int*ldu,void*v,int*ldv,void*w,int*lw,int*info){ GNEXT(dgesvd_) if(*lw!=-1) G::svd("dgesvd",*ju,*jv,*m,*n,a,*lda,s,u,*ldu,v,*ldv,w,*lw,0,8); return f(ju,jv,m,n,a,lda,s,u,ldu,v,ldv,w,lw,info); }
int zgesvd_(char*ju,char*jv,int*m,int*n,void*a,int*lda,void*s,void*u,int*ldu,void*v,int*ldv,void*w,int*lw,void*rw,int*info){ GNEXT(zgesvd_) if(*lw!=-1) G::svd("zgesvd",*ju,*jv,*m,*n,a,*lda,s,u,*ldu,v,*ldv,w,*lw,rw,16); return f(ju,jv,m,n,a,lda,s,u,ldu,v,ldv,w,lw,rw,info); }
int dsyev_(char*j,char*up,int*n,void*a,int*lda,void*w,void*wk,int*lw,int*info){ GNEXT(dsyev_) if(*lw!=-1) G::ev("dsyev",*n,a,*lda,w,wk,*lw,0,8); return f(j,up,n,a,lda,w,wk,lw,info); }
int zheev_(char*j,char*up,int*n,void*a,int*lda,void*w,void*wk,int*lw,void*rw,int*info){ GNEXT(zheev_) if(*lw!=-1) G::ev("zheev",*n,a,*lda,w,wk,*lw,rw,16); return f(j,up,n,a,lda,w,wk,lw,rw,info); }
int dgeev_(char*jl,char*jr,int*n,void*a,int*lda,void*w,void*wi,void*l,int*ldl,void*r,int*ldr,void*wk,int*lw,int*info){ GNEXT(dgeev_) if(*lw!=-1) G::gev("dgeev",*jl,*jr,*n,a,*lda,w,wi,l,*ldl,r,*ldr,wk,*lw,0,8); return f(jl,jr,n,a,lda,w,wi,l,ldl,r,ldr,wk,lw,info); }
int zgeev_(char*jl,char*jr,int*n,void*a,int*lda,void*w,void*l,int*ldl,void*r,int*ldr,void*wk,int*lw,void*rw,int*info){ GNEXT(zgeev_) if(*lw!=-1) G::gev("zgeev",*jl,*jr,*n,a,*lda,w,0,l,*ldl,r,*ldr,wk,*lw,rw,16); return f(jl,jr,n,a,lda,w,l,ldl,r,ldr,wk,lw,rw,info); }
int dgesv_(int*n,int*q,void*a,int*lda,void*p,void*b,int*ldb,int*info){ GNEXT(dgesv_) G::sv("dgesv",*n,*q,a,*lda,p,b,*ldb,8); return f(n,q,a,lda,p,b,ldb,info); }
int zgesv_(int*n,int*q,void*a,int*lda,void*p,void*b,int*ldb,int*info){ GNEXT(zgesv_) G::sv("zgesv",*n,*q,a,*lda,p,b,*ldb,16); return f(n,q,a,lda,p,b,ldb,info); }
}
#endif
