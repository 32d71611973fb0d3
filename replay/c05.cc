#include "slices.h"
template<class E> void one(const N<E>&a,const Tensor<E>&A,const Sels&s){ std::string d=TN<E>()+str(a)+str(s); run("slice",d,[&]{ Dims pos,nd; if(!positions(a.d,s,pos,nd)) return; N<E> w; w.d=nd; for(long p:pos) w.v.push_back(a.v[p]); same("slice",d,get(A,s),w); same("slice source",d,A,a); }); }
template<class E> void all(E*){
  for(auto&d:shapes(2,0,thorough?3:2)){ N<E> a=rnd_n<E>(d); Tensor<E> A=lib(a); combos(d,[&](const Sels&s){ one(a,A,s); }); }
  for(long n=3;n<=(thorough?8:5);n++){ N<E> a=rnd_n<E>({n}); Tensor<E> A=lib(a); combos({n},[&](const Sels&s){ one(a,A,s); }); }
  for(int i=0;i<(thorough?20000:1500);i++){ int r=rint(1,6); Dims d; for(int k=0;k<r;k++) d.push_back(rint(0,12)?rint(1,r<3?9:r<5?5:3):0); if(i%15==0){ d[rint(0,r-1)]=rint(30,r<3?700:130); while(prod(d)>3000) for(auto&x:d) if(x>1&&rint(0,1)) x=(x+1)/2; } N<E> a=rnd_n<E>(d); Tensor<E> A=lib(a); Sels s; for(int k=0;k<r;k++) s.push_back(pick(d[k],false)); one(a,A,s);
    if(r>1){ Sels f; f.push_back(pick(prod(d),false)); one(a,A,f); } // one range over all elements in storage order
    int q=rint(0,r-1); auto b=bads(d[q]); s[q]=b[rint(0,b.size()-1)]; must_abort("slice out of bounds",TN<E>()+str(d)+str(s),[&]{ Tensor<E> x=get(A,s); });
    int m=rint(2,6); if(m!=r){ Sels t; for(int k=0;k<m;k++) t.push_back({0,0,0,1,{}}); must_abort("slice with another number of ranges",TN<E>()+str(d)+str(t),[&]{ Tensor<E> x=get(A,t); }); } }
  for(long d=0;d<=4;d++) for(auto&b:bads(d)){ Tensor<E> A(d); must_abort("slice out of bounds",str(Dims{d})+str(b),[&]{ Tensor<E> x=A(mk(b)); }); Tensor<E> B(d,2); must_abort("slice out of bounds",str(Dims{d,2})+str(b),[&]{ Tensor<E> x=B(mk(b),range()); }); Tensor<E> C(2,d); must_abort("slice out of bounds",str(Dims{2,d})+str(b),[&]{ Tensor<E> x=C(range(1),mk(b)); }); }
  for(int i=0;i<(thorough?2000:200);i++){ // the list of indices belongs to the caller
    long d=rint(1,6); N<E> a=rnd_n<E>({d,3}); Dims l; for(int k=0;k<4;k++) l.push_back(rint(-d,d-1)); run("index list operand",str(l),[&]{ Indices x=ind(l); Tensor<E> A=lib(a); Tensor<E> B=A(range(x),range(1)); samev("index list operand",str(l),x,l); Tensor<E> C=A(range(x),range(1)); same("slice",str(l),C,plain(B)); }); } }
int main(int c,char**v){ init(c,v); fine=true; all((double*)0); all((cdouble*)0); return finish(); }
