#include "sp.h"
template<class E> N<E> tr(const N<E>&a,bool c){ N<E> w(Dims{a.d[1],a.d[0]}); each(a.d,[&](const Dims&i){ w(Dims{i[1],i[0]})=c?cj(a(i)):a(i); }); return w; }
template<class E> void maps(const M<E>&m){ std::string d=TN<E>()+" "+str(m); N<E> a=dense(m);
  run("structural",d,[&]{ Sparse<E> s=sp(m); is("transpose",d,transpose(s),tr(a,false)); is("adjoint",d,adjoint(s),tr(a,true)); is("transpose twice",d,transpose(transpose(s)),a);
    N<double> re(a.d),im(a.d); N<E> co(a.d); N<cdouble> z(a.d); for(size_t k=0;k<a.v.size();k++){ re.v[k]=std::real(a.v[k]); im.v[k]=std::imag(cdouble(a.v[k])); co.v[k]=cj(a.v[k]); z.v[k]=a.v[k]; }
    is("real",d,RSparse(real(s)),re); is("imag",d,RSparse(imag(s)),im); is("conj",d,Sparse<E>(conj(s)),co); is("to_complex",d,CSparse(to_complex(s)),z); keeps("structural",d,s,m); }); }
template<class E> N<E> K(const N<E>&x,const N<E>&y){ N<E> w(Dims{x.d[0]*y.d[0],x.d[1]*y.d[1]}); each(x.d,[&](const Dims&i){ each(y.d,[&](const Dims&j){ w(Dims{j[0]+y.d[0]*i[0],j[1]+y.d[1]*i[1]})=x(i)*y(j); }); }); return w; }
template<class E> void krons(const M<E>&p,const M<E>&q){ std::string d=TN<E>()+" "+str(p)+" ; "+str(q); N<E> a=dense(p),b=dense(q);
  run("kron",d,[&]{ Sparse<E> x=sp(p),y=sp(q); is("kron",d,kron(x,y),K(a,b)); is("kron2",d,kron2(x,y),K(b,a)); keeps("kron",d,x,p); keeps("kron",d,y,q); });
  if(p.r!=p.c||q.r!=q.c) return;
  run("kron2_sum",d,[&]{ Sparse<E> x=sp(p),y=sp(q); auto id=[](long n){ N<E> w(Dims{n,n}); for(long i=0;i<n;i++) w(Dims{i,i})=1.0; return w; };
    auto sum=[&](const N<E>&u,const N<E>&v){ N<E> w=K(u,id(v.d[0])),t=K(id(u.d[0]),v); for(size_t k=0;k<w.v.size();k++) w.v[k]+=t.v[k]; return w; };
    Sparse<E> s=kron2_sum(x,y); if(!wf("kron2_sum",d,s)) return; N<E> w=sum(a,b),w2=sum(b,a),g=den(s);
    if(g.d==w2.d&&g.v==w2.v&&!(g.v==w.v)) fail("kron2_sum operand order",d+": the first operand is the inner factor, kron2_sum of dense matrices makes it the outer one"); else is("kron2_sum",d,s,w); keeps("kron2_sum",d,x,p); keeps("kron2_sum",d,y,q); }); }
template<class E> void big(){ const long cs[]={(1L<<31)-1,1L<<31,(1L<<31)+1,(1L<<32)-1,1L<<32,(1L<<32)+5,1L<<40};
  for(long C:cs) for(int q=0;q<(thorough?20:4);q++){ Big<E> b=rndbig<E>(rint(1,3),C); std::string d=str(b); M<E> m=rndpat<E>(rint(1,3),rint(1,4),60); 
    run("very many columns",d+" ; "+str(m),[&]{ Sparse<E> s=sp(b),t=sp(m); auto f=[&](const char*n,auto x,auto g){ typedef decltype(g(E(0))) F; Big<F> w{b.R,b.C,{}}; for(auto&y:b.at) w.at[y.first]=g(y.second); is(n,d,x,w); };
      f("real",RSparse(real(s)),[](E x){ return std::real(x); }); f("imag",RSparse(imag(s)),[](E x){ return std::imag(cdouble(x)); }); f("conj",Sparse<E>(conj(s)),[](E x)->E{ return cj(x); }); f("to_complex",CSparse(to_complex(s)),[](E x){ return cdouble(x); });
      Big<E> k{b.R*m.r,b.C*m.c,{}},k2=k; for(auto&x:b.at) for(long i=0;i<m.r;i++) for(long j=0;j<m.c;j++) if(m.has[(size_t)(i+m.r*j)]){ E v=x.second*m.get(i,j); k.at[{i+m.r*x.first.first,j+m.c*x.first.second}]=v; k2.at[{x.first.first+b.R*i,x.first.second+b.C*j}]=v; }
      is("kron",d+" ; "+str(m),kron(s,t),k); is("kron2",d+" ; "+str(m),kron2(s,t),k2); is("kron",str(m)+" ; "+d,kron(t,s),k2); }); }
  for(int q=0;q<(thorough?60:12);q++){ Big<E> a=rndbig<E>(rint(1,3),(1L<<rint(10,22))+rint(-1,1)),b=rndbig<E>(rint(1,3),(1L<<rint(10,22))+rint(-1,1)); a.at[{rint(0,a.R-1),a.C-1}]=E(2.0); b.at[{rint(0,b.R-1),b.C-1}]=E(-3.0);
    Big<E> k{a.R*b.R,a.C*b.C,{}}; for(auto&x:a.at) for(auto&y:b.at) k.at[{y.first.first+b.R*x.first.first,y.first.second+b.C*x.first.second}]=x.second*y.second; std::string d=str(a)+" ; "+str(b); run("very many columns",d,[&]{ is("kron",d,kron(sp(a),sp(b)),k); is("kron2",d,kron2(sp(b),sp(a)),k); }); } }
template<class E> void all(){ big<E>();
  for(long r=0;r<=3;r++) for(long c=0;c<=3;c++){ unsigned long n=1ul<<(r*c); for(unsigned long k=0;k<n;k++){ maps<E>(pattern<E>(r,c,k)); if(k%8==0) maps<E>(pattern<E>(r,c,k,true)); } }
  for(int q=0;q<(thorough?600:80);q++) maps<E>(rndpat<E>(rint(0,9),rint(0,9),(int)rint(0,100),q%3==0)); maps<E>(rndpat<E>(1,30,40)); maps<E>(rndpat<E>(30,1,40)); maps<E>(rndpat<E>(20,20,10)); maps<E>(rndpat<E>(2,300,60)); maps<E>(rndpat<E>(300,2,60)); maps<E>(rndpat<E>(60,70,40));
  krons<E>(rndpat<E>(12,9,50),rndpat<E>(7,11,50)); krons<E>(rndpat<E>(1,80,70),rndpat<E>(2,3,70)); krons<E>(rndpat<E>(90,1,70),rndpat<E>(1,2,70)); krons<E>(rndpat<E>(3,2,70),rndpat<E>(1,90,70)); krons<E>(rndpat<E>(2,1,70),rndpat<E>(80,2,70)); krons<E>(rndpat<E>(12,12,40),rndpat<E>(9,9,40));
  for(long r=0;r<=2;r++) for(long c=0;c<=2;c++) for(long s=0;s<=2;s++) for(long t=0;t<=2;t++){ unsigned long n=1ul<<(r*c),m=1ul<<(s*t); for(unsigned long k=0;k<n;k++) for(unsigned long l=0;l<m;l++) krons<E>(pattern<E>(r,c,k),pattern<E>(s,t,l)); }
  for(int q=0;q<(thorough?600:100);q++){ long D=q%2?4:6; M<E> a=rndpat<E>(rint(0,D),rint(0,D),(int)rint(0,100),q%3==0),b=rndpat<E>(rint(0,D),rint(0,D),(int)rint(0,100),q%4==0); krons<E>(a,b); long n=rint(0,5),m=rint(0,5); krons<E>(rndpat<E>(n,n,(int)rint(0,100),q%3==0),rndpat<E>(m,m,(int)rint(0,100))); }
}
int main(int c,char**v){ init(c,v); all<double>(); all<cdouble>(); return finish(); }
