#include "h.h"
template<class E> Tensor<E> mk(const Dims&i){ switch(i.size()){case 1:return Tensor<E>(i[0]);case 2:return Tensor<E>(i[0],i[1]);case 3:return Tensor<E>(i[0],i[1],i[2]);case 4:return Tensor<E>(i[0],i[1],i[2],i[3]);case 5:return Tensor<E>(i[0],i[1],i[2],i[3],i[4]);default:return Tensor<E>(i[0],i[1],i[2],i[3],i[4],i[5]);} }
template<class E> Tensor<E> fz(const Dims&i,bool o){ typedef Tensor<E> T; 
#define F(n,...) case n: return o?T::ones(__VA_ARGS__):T::zeros(__VA_ARGS__);
  switch(i.size()){ F(2,i[0],i[1]) F(3,i[0],i[1],i[2]) F(4,i[0],i[1],i[2],i[3]) F(5,i[0],i[1],i[2],i[3],i[4]) F(6,i[0],i[1],i[2],i[3],i[4],i[5]) default: return T(); } }
template<class E> Tensor<E> rs(const Tensor<E>&t,const Dims&i){
#define Q(n,...) case n: return reshape(t,__VA_ARGS__);
  switch(i.size()){ Q(1,i[0]) Q(2,i[0],i[1]) Q(3,i[0],i[1],i[2]) Q(4,i[0],i[1],i[2],i[3]) Q(5,i[0],i[1],i[2],i[3],i[4]) default: return reshape(t,i[0],i[1],i[2],i[3],i[4],i[5]); } }
template<class E> void shape(const std::string&k,const std::string&d,const Tensor<E>&t,const Dims&w){ check(dimsof(t.dimensions())==w,k,d+" dimensions "+str(dimsof(t.dimensions()))); check(t.size()==prod(w),k,d+" size "+std::to_string((long)t.size())); check(t.end_const()-t.begin_const()==prod(w),k,d+" storage"); }
template<class E> void one(const Dims&d){ std::string D=TN<E>()+str(d); int r=d.size(); N<E> a=rnd_n<E>(d);
  auto cst=[&](const Dims&w,E v){ N<E> x(w); for(auto&y:x.v) y=v; return x; };
  run("construct",D,[&]{ shape("construct",D,mk<E>(d),d); shape("construct from list",D,Tensor<E>(ind(d)),d); same("zeros list",D,Tensor<E>::zeros(ind(d)),cst(d,0.0)); same("ones list",D,Tensor<E>::ones(ind(d)),cst(d,1.0));
    if(r>1){ same("zeros",D,fz<E>(d,false),cst(d,0.0)); same("ones",D,fz<E>(d,true),cst(d,1.0)); } else { same("zeros",D,Tensor<E>::zeros((long)d[0]),cst({d[0],d[0]},0.0)); same("ones",D,Tensor<E>::ones((long)d[0]),cst({d[0],d[0]},1.0)); }
    Tensor<E> A=lib(a),B(A),C; C=A; same("copy",D,B,a); same("assign",D,C,a); C=lib(rnd_n<E>({2,2})); C=A; same("assign over",D,C,a); check(A.is_empty()==(prod(d)==0),"is_empty",D);
    Vector<E> V=A; samev("to vector",D,V,a.v); N<E> f; f.d={prod(d)}; f.v=a.v; same("from vector",D,Tensor<E>(V),f); same("from std::vector",D,Tensor<E>(a.v),f); same("flatten",D,flatten(A),f);
    Tensor<E> G=A; G.fill_with(E(3)); same("fill_with",D,G,cst(d,3.0)); same("fill_with other owner",D,A,a); G.fill_with_zeros(); same("fill_with_zeros",D,G,cst(d,0.0));
    if(r<=2){ Dims w=r==1?Dims{d[0],d[0]}:d; N<E> e(w); each(w,[&](const Dims&i){ e(i)=i[0]==i[1]?1.0:0.0; }); same("eye",D,r==1?Tensor<E>::eye(d[0]):Tensor<E>::eye(d[0],d[1]),e); } });
  run("reshape",D,[&]{ Tensor<E> A=lib(a); std::vector<Dims> ws; ws.push_back({prod(d)}); Dims x=d; std::sort(x.begin(),x.end()); do ws.push_back(x); while(std::next_permutation(x.begin(),x.end())&&ws.size()<30); Dims y=d; while(y.size()<6){ y.push_back(1); ws.push_back(y); } if(r==4) ws.push_back({d[0]*d[1],d[2]*d[3]});
    for(auto&w:ws){ N<E> b; b.d=w; b.v=a.v; std::string K=D+" to "+str(w); same("reshape list",K,reshape(A,ind(w)),b); same("reshape",K,rs(A,w),b); same("construct from tensor",K,Tensor<E>(ind(w),A),b); Tensor<E> M=A; M.reshape(ind(w)); same("member reshape",K,M,b); same("reshape source",K,A,a); if(prod(d)){ M.at_seq(0)=E(99); same("reshape shares no later change",K,A,a); Tensor<E> R2=reshape(A,ind(w)); A.at_seq(0)=E(98); same("reshape shares no later change",K,R2,b); A=lib(a); } } });
  Tensor<E> A=lib(a); for(int n=1;n<=6;n++) for(int s: {1,-1}){ Dims w(n,1); w[rint(0,n-1)]=prod(d)+s; if(prod(d)+s<0) continue; std::string K=D+" to "+str(w); must_abort("reshape size",K,[&]{ rs(A,w); }); must_abort("reshape size list",K,[&]{ reshape(A,ind(w)); }); must_abort("construct from tensor size",K,[&]{ Tensor<E> t(ind(w),A); }); must_abort("member reshape size",K,[&]{ Tensor<E> M=A; M.reshape(ind(w)); }); }
}
int main(int c,char**v){ init(c,v); auto S=shapes(thorough?5:3,0,3,243); for(int i=0;i<(thorough?300:40);i++){ Dims d; int r=4+i%3; for(int q=0;q<r;q++) d.push_back(rint(i%7?1:0,3)); S.push_back(d); } for(auto&d:big(6)) S.push_back(d); S.push_back({5,7}); S.push_back({7,5}); S.push_back({1,9}); S.push_back({9,1});
  for(auto&d:S){ one<double>(d); one<cdouble>(d); } N<double> a=rnd_n<double>({2,3}); run("convert","",[&]{ N<cdouble> z({2,3}); for(int i=0;i<6;i++) z.v[i]=a.v[i]; same("convert","",CT(lib(a)),z); }); return finish(); }
