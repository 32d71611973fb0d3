#include "slices.h"
template<class E> void one(const N<E>&a,const Sels&s,int how=-1){ Dims pos,nd; if(!positions(a.d,s,pos,nd)) return; long n=pos.size(); if(how<0) how=rint(0,4);
  std::string d=TN<E>()+str(a)+str(s); N<E> w=a;
  if(how==0){ E v=elem((E*)0); d+="="+str(v); run("slice = scalar",d,[&]{ Tensor<E> A=lib(a),B=A; put(A,s,v); for(long p:pos) w.v[p]=v; same("slice = scalar",d,A,w); same("shared tensor",d,B,a); }); }
  else if(how==1||how==2){ Dims fd=how==1?nd:Dims{n}; N<E> b=rnd_n<E>(fd); d+="="+str(b); run("slice = tensor",d,[&]{ Tensor<E> A=lib(a),B=A,C=lib(b); put(A,s,C); for(long i=0;i<n;i++) w.v[pos[i]]=b.v[i]; same("slice = tensor",d,A,w); same("shared tensor",d,B,a); same("assigned tensor",d,C,b); }); }
  else { Dims bd=nd; Sels t; if(bd.size()>4){ bd={n}; } for(auto&x:bd) x+=rint(0,1); Dims p2,n2; for(auto x:bd) t.push_back({0,0,0,1,{}}); for(size_t i=0;i<bd.size();i++){ long m=nd.size()>4?n:nd[i]; long off=bd[i]-m; t[i]={2,off,off+m-1,1,{}}; if(off+m-1<0) t[i].kind=4; }
    N<E> b=rnd_n<E>(bd); if(!positions(bd,t,p2,n2)||(long)p2.size()!=n) return; d+="="+str(b)+str(t); run("slice = slice",d,[&]{ Tensor<E> A=lib(a),B=A,C=lib(b); putv(A,s,C,t); for(long i=0;i<n;i++) w.v[pos[i]]=b.v[p2[i]]; same("slice = slice",d,A,w); same("shared tensor",d,B,a); same("assigned tensor",d,C,b); }); } }
template<class E> void all(E*){
  for(auto&d:shapes(2,0,thorough?3:2)){ N<E> a=rnd_n<E>(d); combos(d,[&](const Sels&s){ one(a,s); }); }
  for(long n=3;n<=(thorough?8:5);n++){ N<E> a=rnd_n<E>({n}); combos({n},[&](const Sels&s){ for(int h=0;h<4;h++) one(a,s,h); }); }
  for(int i=0;i<(thorough?20000:1500);i++){ int r=rint(1,6); Dims d; for(int k=0;k<r;k++) d.push_back(rint(0,12)?rint(1,r<3?9:r<5?5:3):0); if(i%15==0){ d[rint(0,r-1)]=rint(30,r<3?700:130); while(prod(d)>3000) for(auto&x:d) if(x>1&&rint(0,1)) x=(x+1)/2; } N<E> a=rnd_n<E>(d); Sels s; for(int k=0;k<r;k++) s.push_back(pick(d[k],true)); one(a,s);
    if(r>1){ Sels f; f.push_back(pick(prod(d),true)); one(a,f); }
    Tensor<E> A=lib(a); Dims pos,nd; positions(d,s,pos,nd); long n=pos.size(); long m=n+rint(1,3); if(n&&rint(0,1)) m=n-1;
    must_abort("size mismatch",TN<E>()+str(d)+str(s)+" = "+std::to_string(m)+" elements",[&]{ Tensor<E> x=lib(a),y((long)m); y.fill_with_zeros(); put(x,s,y); });
    must_abort("size mismatch",TN<E>()+str(d)+str(s)+" = slice of "+std::to_string(m)+" elements",[&]{ Tensor<E> x=lib(a),y((long)m); y.fill_with_zeros(); put(x,s,y(range())); });
    int q=rint(0,r-1); auto b=bads(d[q]); s[q]=b[rint(0,b.size()-1)]; must_abort("slice out of bounds",TN<E>()+str(d)+str(s),[&]{ Tensor<E> x=lib(a); put(x,s,E(1)); });
    m=rint(2,6); if(m!=r){ Sels t; for(int k=0;k<m;k++) t.push_back({0,0,0,1,{}}); must_abort("slice with another number of ranges",TN<E>()+str(d)+str(t),[&]{ Tensor<E> x=lib(a); put(x,t,E(1)); }); } }
  for(long d=0;d<=4;d++) for(auto&b:bads(d)){ Tensor<E> A(d); must_abort("slice out of bounds",str(Dims{d})+str(b),[&]{ Tensor<E> x=A; x.at(mk(b))=E(1); }); Tensor<E> B(d,2); must_abort("slice out of bounds",str(Dims{d,2})+str(b),[&]{ Tensor<E> x=B; x.at(mk(b),range())=E(1); }); }
  // the tensor assigned is the one written, or one that shares its storage
  for(int i=0;i<(thorough?3000:300);i++){ long d=rint(1,6),e=rint(1,3); N<E> a=rnd_n<E>({d,e}); Sel p{4,0,0,1,{}}; for(long k=0;k<d;k++) p.l.push_back(k); for(long k=d-1;k>0;k--) std::swap(p.l[k],p.l[rint(0,k)]); Sels s={p,{0,0,0,1,{}}}; Dims pos,nd; positions(a.d,s,pos,nd); N<E> w=a; for(size_t k=0;k<pos.size();k++) w.v[pos[k]]=a.v[k]; std::string ds=TN<E>()+str(a)+str(s);
    run("slice = same tensor",ds,[&]{ Tensor<E> A=lib(a); put(A,s,A); same("slice = same tensor",ds,A,w); }); run("slice = copy",ds,[&]{ Tensor<E> A=lib(a),B=A; put(A,s,B); same("slice = copy",ds,A,w); same("shared tensor",ds,B,a); });
    N<E> u=a; for(size_t k=0;k<pos.size();k++) u.v[k]=a.v[pos[k]]; run("slice = slice of itself",ds,[&]{ Tensor<E> A=lib(a); Sels f={{0,0,0,1,{}},{0,0,0,1,{}}}; putv(A,f,A,s); same("slice = slice of itself",ds,A,u); }); } }
int main(int c,char**v){ init(c,v); fine=true; all((double*)0); all((cdouble*)0); return finish(); }
