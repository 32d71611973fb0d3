#include "h.h"
template<class E> E rd(const Tensor<E>&t,const Dims&i){ switch(i.size()){case 1:return t(i[0]);case 2:return t(i[0],i[1]);case 3:return t(i[0],i[1],i[2]);case 4:return t(i[0],i[1],i[2],i[3]);case 5:return t(i[0],i[1],i[2],i[3],i[4]);default:return t(i[0],i[1],i[2],i[3],i[4],i[5]);} }
template<class E> void wr(Tensor<E>&t,const Dims&i,E v){ switch(i.size()){case 1:t.at(i[0])=v;break;case 2:t.at(i[0],i[1])=v;break;case 3:t.at(i[0],i[1],i[2])=v;break;case 4:t.at(i[0],i[1],i[2],i[3])=v;break;case 5:t.at(i[0],i[1],i[2],i[3],i[4])=v;break;default:t.at(i[0],i[1],i[2],i[3],i[4],i[5])=v;} }
template<class E> void gd(const Tensor<E>&t,int n,long*o){ switch(n){case 1:t.get_dimensions(o);break;case 2:t.get_dimensions(o,o+1);break;case 3:t.get_dimensions(o,o+1,o+2);break;case 4:t.get_dimensions(o,o+1,o+2,o+3);break;case 5:t.get_dimensions(o,o+1,o+2,o+3,o+4);break;default:t.get_dimensions(o,o+1,o+2,o+3,o+4,o+5);} }
template<class E> void one(const Dims&d){ int r=d.size(); N<E> a=rnd_n<E>(d); Tensor<E> A=lib(a); std::string T=TN<E>()+str(a)+" ";
  run("queries",T,[&]{ check(A.rank()==r,"rank",T); check(A.size()==prod(d),"size",T); for(int i=0;i<r;i++) check(A.dimension(i)==d[i],"dimension",T); check(A.rows()==d[0],"rows",T); if(r>1) check(A.columns()==d[1],"columns",T); long o[6]; gd(A,r,o); for(int i=0;i<r;i++) check(o[i]==d[i],"get_dimensions",T); });
  must_abort("dimension range",T,[&]{ A.dimension(r); }); must_abort("dimension range",T,[&]{ A.dimension(-1); });
  for(int n=1;n<=6;n++) if(n!=r){ must_abort("get_dimensions rank",T+std::to_string(n),[&]{ long o[6]; gd(A,n,o); }); Dims z(n,0); must_abort("read rank",T+std::to_string(n),[&]{ volatile double x=std::abs(rd(A,z)); (void)x; }); if(n>1) must_abort("write rank",T+std::to_string(n),[&]{ Tensor<E> B=A; wr(B,z,E(1)); }); }
  long every=1+prod(d)/200,now=0; each(d,[&](const Dims&i){ if(++now%every&&now!=1&&now!=prod(d)) return; Dims j=i; for(int q=0;q<r;q++) if(rnd()&1) j[q]-=d[q]; std::string D=T+str(j);
    run("read",D,[&]{ check(rd(A,j)==a(i),"read",D); check(A[(long)a.pos(i)]==a(i),"storage order",D); });
    run("write",D,[&]{ Tensor<E> B=A,C=lib(a); N<E> b=a; b(i)=E(77); wr(B,j,E(77)); same("write to a shared tensor",D,B,b); same("write leaves the other owner",D,A,a); wr(C,j,E(77)); same("write",D,C,b); Tensor<E> F=A; F.at_seq((long)a.pos(i))=E(77); same("at_seq",D,F,b); same("at_seq leaves the other owner",D,A,a); Tensor<E> G=A; long p=a.pos(i); G.at((rnd()&1)?p:p-prod(d))=E(77); same("at",D,G,b); }); });
  for(int q=0;q<r;q++) for(long b: {d[q],-d[q]-1,d[q]+5,-d[q]-7}) { Dims j(r,0); for(int p=0;p<r;p++) if(p!=q && d[p]) j[p]=rint(-d[p],d[p]-1); j[q]=b; std::string D=T+str(j); must_abort("read out of range",D,[&]{ volatile double x=std::abs(rd(A,j)); (void)x; }); must_abort("write out of range",D,[&]{ Tensor<E> B=lib(a); wr(B,j,E(1)); }); }
}
int main(int c,char**v){ init(c,v); auto S=shapes(thorough?6:4,0,3,thorough?243:81); for(int i=0;i<(thorough?200:25);i++){ Dims d; int r=5+i%2; for(int q=0;q<r;q++) d.push_back(rint(1,3)); S.push_back(d); } for(int i=0;i<10;i++) S.push_back({rint(4,9),rint(4,9),rint(1,3)}); for(auto&d:big(6)) S.push_back(d);
  S.push_back({1,2,3,4,1,2}); S.push_back({2,1,3,1,4}); S.push_back({17});
  for(auto&d:S){ one<double>(d); one<cdouble>(d); } return finish(); }
