#include "h.h"
template<class E> Dims without(const Dims&d,std::set<long> x){ Dims r; for(size_t k=0;k<d.size();k++) if(!x.count(k)) r.push_back(d[k]); return r; }
template<class E> void all(E*){ std::string T=TN<E>(); typedef Tensor<E> X;
  for(auto&s:shapes(5,0,3,thorough?300:120)){ long r=s.size(); if(r>4&&rint(0,8)&&!thorough) continue; N<E> a=rnd_n<E>(s); X A=lib(a);
    for(long i=0;i<r;i++) for(long j=0;j<r;j++){ long pi=rint(0,1)?i:i-r,pj=rint(0,1)?j:j-r; std::string d=T+" "+str(a)+" dims "+std::to_string(pi)+","+std::to_string(pj);
      if(i==j){ must_abort("partial trace over one dimension",d,[&]{ X t=trace(A,pi,pj); }); continue; }
      run("partial trace",d,[&]{ Dims o=without<E>(s,{i,j}); N<E> w; w.d=o.empty()?Dims{1}:o; w.v.assign(prod(w.d),E(0)); each(s,[&](const Dims&x){ if(x[i]==x[j]){ Dims y=without<E>(x,{i,j}); if(y.empty()) y={0}; w(y)+=a(x); } }); same("partial trace",d,trace(A,pi,pj),w,1e-13); same("partial trace operand",d,A,a); });
      for(long wch=-4;wch<=4;wch++){ std::string e=d+" offset "+std::to_string(wch); if(wch>=s[j]||wch<=-s[i]){ must_abort("diagonal offset",e,[&]{ X t=take_diag(A,wch,pi,pj); }); continue; }
        run("take diagonal",e,[&]{ long m=std::min(i,j),n=std::max(i,j); long oi=wch<0?-wch:0,oj=wch<0?0:wch; long L=std::max(0L,std::min(s[i]-oi,s[j]-oj)); N<E> w; w.d=without<E>(s,{n}); w.d[m]=L; w.v.assign(prod(w.d),E(0));
          each(w.d,[&](const Dims&y){ Dims x; for(long k=0,q=0;k<r;k++){ if(k==n) x.push_back(0); else x.push_back(y[q++]); } long l=y[m]; x[i]=oi+l; x[j]=oj+l; w(y)=a(x); }); same("take diagonal",e,take_diag(A,wch,pi,pj),w); same("take diagonal operand",e,A,a); }); } }
    if(rint(0,9)==0) for(long b:{r,r+3,-r-1,-r-5}) { std::string d=T+str(a)+" "+std::to_string(b); must_abort("partial trace bad dimension",d,[&]{ X t=trace(A,b,0); }); must_abort("partial trace bad dimension",d,[&]{ X t=trace(A,0,b); }); must_abort("diagonal bad dimension",d,[&]{ X t=take_diag(A,0,b,0); }); must_abort("diagonal bad dimension",d,[&]{ X t=take_diag(A,0,0,b); }); }
    if(r==2) { run("default diagonal",T+str(a),[&]{ if(s[0]&&s[1]){ N<E> w({std::min(s[0],s[1])}); for(long l=0;l<w.d[0];l++) w.v[l]=a({l,l}); same("default diagonal",T+str(a),take_diag(A),w); same("default diagonal",T+str(a),A.diag(),w); } }); }
    else must_abort("matrix trace rank",T+str(a),[&]{ volatile double x=std::abs(trace(A)); (void)x; }); }
  for(long r=0;r<=7;r++) for(long cc=0;cc<=7;cc++){ N<E> a=rnd_n<E>({r,cc}); run("matrix trace",T+str(a),[&]{ E w(0); for(long l=0;l<std::min(r,cc);l++) w+=a({l,l}); E g=trace(lib(a)); check(near(g,w,1e-13),"matrix trace",T+str(a)+" gives "+str(g)+", contract says "+str(w)); }); }
  for(long n=0;n<=5;n++) for(long w=-4;w<=4;w++){ N<E> a=rnd_n<E>({n}); long r0=w<0?-w:0,c0=w<0?0:w; auto want=[&](long R,long C){ N<E> o({R,C}); for(auto&x:o.v) x=E(0); for(long l=0;l<n;l++) o({r0+l,c0+l})=a.v[l]; return o; };
    std::string d=T+str(a)+" offset "+std::to_string(w); run("diagonal matrix",d,[&]{ same("diagonal matrix",d,diag(lib(a),w),want(n+r0+c0,n+r0+c0)); if(w==0) same("diagonal matrix",d,diag(lib(a)),want(n,n)); });
    for(long R=0;R<=8;R++) for(long C=0;C<=8;C++){ std::string e=d+" size "+std::to_string(R)+"x"+std::to_string(C); if(std::min(R-r0,C-c0)==n) run("sized diagonal matrix",e,[&]{ X A=lib(a); same("sized diagonal matrix",e,diag(A,w,R,C),want(R,C)); same("diagonal operand",e,A,a); }); else must_abort("sized diagonal matrix mismatch",e,[&]{ X t=diag(lib(a),w,R,C); }); } }
  for(long n:{1,2,40,300}) for(long w:{0,3,-2,16,-16,50,-50,130,-130}){ N<E> a=rnd_n<E>({n}); long r0=w<0?-w:0,c0=w<0?0:w; N<E> o({n+r0+c0,n+r0+c0}); for(auto&x:o.v) x=E(0); for(long l=0;l<n;l++) o({r0+l,c0+l})=a.v[l]; std::string d=T+str(a)+std::to_string(w); run("diagonal matrix",d,[&]{ X m=diag(lib(a),w); same("diagonal matrix",d,m,o); same("default diagonal",d,take_diag(m,w),a); E t(0); if(!w) for(E x:a.v) t+=x; check(near(trace(m),t,1e-12),"matrix trace",d); }); }
  auto B=big(); for(auto&s:{Dims{90,90},Dims{60,2,60},Dims{2,60,60},Dims{60,60,3},Dims{101,101},Dims{2,103,103},Dims{103,105,2},Dims{130,2,129}}) B.push_back(s);
  for(int it=0;it<(thorough?400:60)+2*(int)B.size();it++){ Dims s; int r=rint(2,4); for(int i=0;i<r;i++) s.push_back(rint(1,8)); if(it<2*(int)B.size()) s=B[it/2]; r=(int)s.size(); if(r<2) continue; N<E> a=rnd_n<E>(s); int i=rint(0,r-1),j=(i+rint(1,r-1))%r; std::string d=T+str(s)+" "+std::to_string(i)+","+std::to_string(j);
    run("partial trace",d,[&]{ Dims o=without<E>(s,{i,j}); N<E> w; w.d=o.empty()?Dims{1}:o; w.v.assign(prod(w.d),E(0)); each(s,[&](const Dims&x){ if(x[i]==x[j]){ Dims y=without<E>(x,{i,j}); if(y.empty()) y={0}; w(y)+=a(x); } }); same("partial trace",d,trace(lib(a),i,j),w,1e-13); }); } }
int main(int c,char**v){ init(c,v); fine=true; all((double*)0); all((cdouble*)0); return finish(); }
