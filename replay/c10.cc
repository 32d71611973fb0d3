#include "h.h"
template<class E> void go(){
  std::string T=TN<E>();
  auto S=shapes(thorough?5:4,0,3,thorough?243:81); for(auto&d:big()) S.push_back(d); for(auto&d: S){
    int r=d.size(); if(r<2 && d[0]>3) continue;
    N<E> a=rnd_n<E>(d); Tensor<E> A=lib(a);
    for(int i=-r;i<r;i++) for(int j=-r;j<r;j++){
      int m=i<0?i+r:i,n=j<0?j+r:j; std::string desc="permute("+T+"Tensor "+str(a)+","+std::to_string(i)+","+std::to_string(j)+")";
      run("permute",desc,[&]{ Dims e=d; std::swap(e[m],e[n]); N<E> w(e); each(d,[&](const Dims&x){ Dims y=x; std::swap(y[m],y[n]); w(y)=a(x); });
        same("permute",desc,permute(A,i,j),w); same("permute argument unchanged",desc,A,a); });
    }
    for(int i: {-r-1,r,r+3}) { must_abort("permute bad index",str(d)+" "+std::to_string(i),[&]{ permute(A,i,0); }); must_abort("permute bad index",str(d)+" 0,"+std::to_string(i),[&]{ permute(A,0,i); }); }
    if(r==2){ std::string desc=T+"Tensor "+str(a);
      run("transpose",desc,[&]{ N<E> w({d[1],d[0]}),v({d[1],d[0]}); each(d,[&](const Dims&x){ w({x[1],x[0]})=a(x); v({x[1],x[0]})=cj(a(x)); });
        same("transpose",desc,transpose(A),w); same("adjoint",desc,adjoint(A),v); same("transpose argument",desc,A,a); same("transpose twice",desc,transpose(transpose(A)),a); same("adjoint twice",desc,adjoint(adjoint(A)),a); });
    }
    if(r==3||r==1){ must_abort("transpose rank",T+str(d),[&]{ transpose(A); }); must_abort("adjoint rank",T+str(d),[&]{ adjoint(A); }); }
  }
  for(int it=0;it<(thorough?300:20);it++){ Dims d={rint(1,9),rint(1,9)}; if(it%4==0) d={rint(30,70),rint(30,70)}; if(it==1) d={9,9}; if(it==2) d={70,70}; if(it==3) d={131,131}; if(it==5) d={3,300}; if(it==6) d={300,2}; if(it==7) d={257,129}; N<E> a=rnd_n<E>(d); std::string desc=T+str(d);
    run("transpose",desc,[&]{ N<E> w({d[1],d[0]}),v({d[1],d[0]}); each(d,[&](const Dims&x){ w({x[1],x[0]})=a(x); v({x[1],x[0]})=cj(a(x)); }); same("transpose",desc,transpose(lib(a)),w); same("adjoint",desc,adjoint(lib(a)),v); }); }
}
int main(int c,char**v){ init(c,v); fine=true; go<double>(); go<cdouble>(); return finish(); }
