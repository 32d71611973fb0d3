#include "life.h"
// library calls return everything they allocated: the second run of the same call leaves no block behind
template<class F> void noleak(const char*nm,const std::string&d,F f){ key=nm; ctx=d; evals++; seen.insert(std::hash<std::string>()(nm+d)); alarm(60); { L l; f(); } long b=liblive,by=libbytes; { L l; f(); } std::string w=d; if(memfault) fail(memfault,std::string(nm)+" "+w); memfault=0; if(liblive!=b) fail(std::string("everything allocated during the call is released: ")+nm,w+" blocks left: "+std::to_string(liblive-b)); (void)by; }
template<class E> void sweep(){ std::string T=TN<E>();
  for(int k=0;k<(thorough?60:12);k++){ long n=rint(1,4), m=rint(1,4); N<E> a=rnd_n<E>(Dims{n,m},true), q=rnd_n<E>(Dims{m,n},true); Tensor<E> A=lib(a),B=lib(q),C=lib(rnd_n<E>(Dims{n,m,2})); Sparse<E> s(A),r(B); E z=elemnz((E*)0); Tensor<E> rv1=lib(rnd_n<E>(Dims{n})); std::string D=T+" "+str(a)+" "+str(q);
#define X(nm,...) noleak(nm,D,[&]{ __VA_ARGS__; });
   X("arithmetic",Tensor<E> x=A+A*z-A/z; x+=A; x*=x; x=x; Tensor<E> y=-x; y=x) X("fold",Tensor<E> x=fold(A,-1,B,0); x=mmult(A,B); x=foldc(A,0,A,0)) X("shape",Tensor<E> x=reshape(A,n*m); x=permute(C,0,2); x=transpose(A); x=adjoint(A); x=squeeze(C))
   X("slices",Tensor<E> x=A(range(),range(0)); Tensor<E> y=C(range(0),range(),range(1)); Tensor<E> w=C(range(igen<<0),range(0,m-1),range(0,1)); Tensor<E> v(A); v.at(range(),range(0))=x; v.at(range(0),range()) =z) X("reductions",E x=sum(A); (void)x; Tensor<E> w=scale(A,0,rv1)) X("products",Tensor<E> x=kron(A,B); x=kron2(A,B); x=take_diag(C,0,1)) 
   X("sparse",Sparse<E> x=s+s; x=x*z; x=s; x=transpose(s); Tensor<E> f=full(x); Tensor<E> g=mmult(s,B); x=kron(s,r); x=Sparse<E>::eye(n,m); Sparse<E> w; w=x)
   X("indices",Indices i(igen<<1<<2<<3); Indices j(i); j.at(0)=5; i=j; Indices w=Indices::range(0,5); i=w) X("booleans",Booleans b=(A==A); b=b&&b; b=!b; Indices i=which(b)) X("std::vector",std::vector<Tensor<E> > v; for(int t=0;t<9;t++) v.push_back(t%2?A:B); v.erase(v.begin()+2); std::swap(v[0],v[1]); v[3]=v[4]; v.resize(2))
  } }
int main(int c,char**v){ init(c,v); ledger=true; histories(); sweep<double>(); sweep<cdouble>(); return finish(); }
