#include "h.h"
template<class E,class F,class G> void fold2(const N<E>&a,int m,const N<F>&b,int n,bool conj,bool in,N<G>&w){
  Dims d; int r=a.d.size(),s=b.d.size();
  if(in){ for(int q=0;q<n;q++) d.push_back(b.d[q]); for(int q=0;q<r;q++) if(q!=m) d.push_back(a.d[q]); for(int q=n+1;q<s;q++) d.push_back(b.d[q]); }
  else { for(int q=0;q<r;q++) if(q!=m) d.push_back(a.d[q]); for(int q=0;q<s;q++) if(q!=n) d.push_back(b.d[q]); }
  bool sc=d.empty(); if(sc) d={1}; w=N<G>(d);
  each(d,[&](const Dims&z){ Dims x(r),y(s); size_t p=0;
    if(!sc){ if(in){ for(int q=0;q<n;q++) y[q]=z[p++]; for(int q=0;q<r;q++) if(q!=m) x[q]=z[p++]; for(int q=n+1;q<s;q++) y[q]=z[p++]; }
      else { for(int q=0;q<r;q++) if(q!=m) x[q]=z[p++]; for(int q=0;q<s;q++) if(q!=n) y[q]=z[p++]; } }
    G t=0; for(long l=0;l<a.d[m];l++){ x[m]=l; y[n]=l; t+=(conj?G(cj(a(x))):G(a(x)))*G(b(y)); } w(z)=t; });
}
template<class E> void into(Tensor<E>&,const Tensor<E>&,int,const Tensor<E>&,int,int){}
inline void into(RT&c,const RT&A,int i,const RT&B,int j,int k){ if(k==0) fold_into(c,A,i,B,j); else if(k==1) foldin_into(c,A,i,B,j); else mmult_into(c,A,B); }
template<class E,class F,class G> void one(const Dims&d,const Dims&e,bool same_t){
  N<E> a=rnd_n<E>(d); N<F> b=rnd_n<F>(e); Tensor<E> A=lib(a); Tensor<F> B=lib(b); int r=d.size(),s=e.size(); std::string T=TN<E>()+TN<F>()+str(d)+str(e);
  for(int m=0;m<r;m++) for(int n=0;n<s;n++){ int i=(rnd()&1)?m:m-r, j=(rnd()&1)?n:n-s; std::string desc=T+" "+str(a)+","+std::to_string(i)+","+str(b)+","+std::to_string(j);
    if(d[m]!=e[n]){ must_abort("fold unequal",desc,[&]{ fold(A,i,B,j); }); must_abort("foldc unequal",desc,[&]{ foldc(A,i,B,j); }); if(m==r-1&&n==0) must_abort("mmult unequal",desc,[&]{ mmult(A,B); }); continue; }
    if(d[m]==0) continue;
    run("fold",desc,[&]{ N<G> w; fold2(a,m,b,n,false,false,w); same("fold",desc,fold(A,i,B,j),w); if(m==r-1&&n==0) same("mmult",desc,mmult(A,B),w);
      fold2(a,m,b,n,true,false,w); same("foldc",desc,foldc(A,i,B,j),w); same("fold arguments unchanged",desc,A,a); same("fold arguments unchanged",desc,B,b); });
  }
  for(int i: {-r-1,r}) { must_abort("fold bad index",T,[&]{ fold(A,i,B,0); }); must_abort("foldc bad index",T,[&]{ foldc(A,i,B,0); }); }
  for(int j: {-s-1,s}) { must_abort("fold bad index",T,[&]{ fold(A,0,B,j); }); must_abort("foldc bad index",T,[&]{ foldc(A,0,B,j); }); }
}
template<class E> void in1(const Dims&d,const Dims&e){
  N<E> a=rnd_n<E>(d),b=rnd_n<E>(e); Tensor<E> A=lib(a),B=lib(b); int r=d.size(),s=e.size(); bool real=sizeof(E)==8; std::string T=TN<E>()+str(d)+str(e);
  for(int m=0;m<r;m++) for(int n=0;n<s;n++){ int i=(rnd()&1)?m:m-r, j=(rnd()&1)?n:n-s; std::string desc=T+" "+str(a)+","+std::to_string(i)+","+str(b)+","+std::to_string(j);
    if(d[m]!=e[n]){ must_abort("foldin unequal",desc,[&]{ foldin(A,i,B,j); }); if(real) must_abort("fold_into unequal",desc,[&]{ Tensor<E> c; into(c,A,i,B,j,0); }); continue; }
    run("foldin",desc,[&]{ N<E> w,v; fold2(a,m,b,n,false,true,w); same("foldin",desc,foldin(A,i,B,j),w);
      if(real){ Tensor<E> c=lib(rnd_n<E>({2})); into(c,A,i,B,j,1); same("foldin_into",desc,c,w);
        if(d[m]){ fold2(a,m,b,n,false,false,v); Tensor<E> g; into(g,A,i,B,j,0); same("fold_into",desc,g,v); if(m==r-1&&n==0){ Tensor<E> h=A; into(h,lib(a),i,B,j,2); same("mmult_into",desc,h,v); same("mmult_into argument",desc,A,a); } } } });
  }
  for(int i: {-r-1,r}) must_abort("foldin bad index",T,[&]{ foldin(A,i,B,0); });
  for(int j: {-s-1,s}) must_abort("foldin bad index",T,[&]{ foldin(A,0,B,j); });
}
int main(int c,char**v){ init(c,v);
  auto S=shapes(3,1,2); for(auto&x: shapes(2,0,1)) S.push_back(x); S.push_back({3}); S.push_back({3,2}); S.push_back({2,3,1}); S.push_back({3,1,2});
  for(auto&d:S) for(auto&e:S){ if(!thorough && d.size()+e.size()>5 && rnd()%3) continue; one<double,double,double>(d,e,true); one<cdouble,cdouble,cdouble>(d,e,true); one<double,cdouble,cdouble>(d,e,false); one<cdouble,double,cdouble>(d,e,false); in1<double>(d,e); in1<cdouble>(d,e); }
  for(int it=0;it<(thorough?400:60);it++){ Dims d,e; int r=rint(1,4),s=rint(1,4); for(int q=0;q<r;q++) d.push_back(rint(1,4)); for(int q=0;q<s;q++) e.push_back(rint(1,4)); e[rint(0,s-1)]=d[rint(0,r-1)];
    one<double,double,double>(d,e,true); one<cdouble,cdouble,cdouble>(d,e,true); in1<double>(d,e); in1<cdouble>(d,e); }
  for(Dims d:{Dims{300},Dims{2,140},Dims{140,2},Dims{2,70,3},Dims{70,3,2},Dims{2,3,70},Dims{2,2,2,2,2}}) for(Dims e:{Dims{300},Dims{140,2},Dims{3,140},Dims{70,2},Dims{2,70,2},Dims{3,2,2},Dims{2,2,2,1,2}}){ bool s=false; for(long x:d) for(long y:e) s=s||(x==y&&x>2); if(!s&&rint(0,3)) continue; one<double,double,double>(d,e,true); one<cdouble,cdouble,cdouble>(d,e,true); one<double,cdouble,cdouble>(d,e,false); in1<double>(d,e); in1<cdouble>(d,e); }
  for(int it=0;it<(thorough?20:4);it++){ Dims d={rint(20,90),rint(20,90)},e={d[1],rint(20,90)}; one<double,double,double>(d,e,true); one<cdouble,cdouble,cdouble>(d,e,true); }
  return finish(); }
