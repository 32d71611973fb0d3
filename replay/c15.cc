#include "h.h"
template<class E> void all(E*){ std::string T=TN<E>(); typedef Tensor<E> X;
  for(auto&s:shapes(5,0,3,thorough?400:150)){ N<E> a=rnd_n<E>(s); X A=lib(a); long r=s.size();
    for(long p=0;p<r;p++) for(long n:{p,p-r}) for(long z=0;z<=5;z++){ std::string d=T+str(a)+" dimension "+std::to_string(n)+" size "+std::to_string(z);
      run("change dimension",d,[&]{ N<E> w; w.d=s; w.d[p]=z; w.v.assign(prod(w.d),E(0)); each(w.d,[&](const Dims&x){ if(x[p]<s[p]) w(x)=a(x); }); same("change dimension",d,change_dimension(A,n,z),w); same("change dimension operand",d,A,a); }); }
    for(long n:{r,r+2,-r-1,-r-4}) must_abort("change of a bad dimension",T+str(a)+" "+std::to_string(n),[&]{ X t=change_dimension(A,n,2); });
    run("squeeze",T+str(a),[&]{ N<E> w=a; w.d.clear(); for(long x:s) if(x!=1) w.d.push_back(x); if(w.d.empty()) w.d={1}; same("squeeze",T+str(a),squeeze(A),w); same("squeeze operand",T+str(a),A,a); });
    run("flatten",T+str(a),[&]{ N<E> w=a; w.d={prod(s)}; same("flatten",T+str(a),flatten(A),w); same("flatten operand",T+str(a),A,a); });
    run("reshape",T+str(a),[&]{ N<E> w=a; long n=prod(s); w.d={1,n}; same("reshape",T+str(a),reshape(A,1,n),w); w.d={n,1,1}; same("reshape",T+str(a),reshape(A,n,1,1),w); w.d={1,1,n,1}; same("reshape",T+str(a),reshape(A,1,1,n,1),w); w.d={1,n,1,1,1}; same("reshape",T+str(a),reshape(A,1,n,1,1,1),w); w.d={1,1,1,1,n,1}; same("reshape",T+str(a),reshape(A,1,1,1,1,n,1),w);
      w.d={n}; same("reshape",T+str(a),reshape(A,n),w); w.d=s; std::reverse(w.d.begin(),w.d.end()); same("reshape",T+str(a),reshape(A,ind(w.d)),w); X B=A; B.reshape(ind(w.d)); same("in-place reshape",T+str(a),B,w); same("reshape operand",T+str(a),A,a); });
    must_abort("reshape to another size",T+str(a),[&]{ X t=reshape(A,prod(s)+1); }); must_abort("reshape to another size",T+str(a),[&]{ X t=reshape(A,2,prod(s)+1); }); must_abort("in-place reshape to another size",T+str(a),[&]{ X t=A; Indices d(2); d.at(0)=3; d.at(1)=prod(s)+1; t.reshape(d); }); }
  auto B=big(); for(int it=0;it<(thorough?1000:150)+3*(int)B.size();it++){ Dims s; int r=rint(1,6); for(int i=0;i<r;i++) s.push_back(rint(0,2)?(r<4?rint(1,9):rint(1,5)):1); if(it<3*(int)B.size()) s=B[it/3]; r=(int)s.size(); N<E> a=rnd_n<E>(s); std::string d=T+str(s); run("squeeze",d,[&]{ N<E> w=a; w.d.clear(); for(long x:s) if(x!=1) w.d.push_back(x); if(w.d.empty()) w.d={1}; same("squeeze",d,squeeze(lib(a)),w); });
    int p=rint(0,r-1); long z=rint(0,2)?rint(0,9):rint(0,30); if(it%3==0&&s[p]>20) z=s[p]+rint(-3,3); d+=" "+std::to_string(p)+" "+std::to_string(z); run("change dimension",d,[&]{ N<E> w; w.d=s; w.d[p]=z; w.v.assign(prod(w.d),E(0)); each(w.d,[&](const Dims&x){ if(x[p]<s[p]) w(x)=a(x); }); same("change dimension",d,change_dimension(lib(a),p,z),w); }); } }
int main(int c,char**v){ init(c,v); fine=true; all((double*)0); all((cdouble*)0); return finish(); }
