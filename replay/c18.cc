#include "sp.h"
template<class A,class B> struct Bin { typedef cdouble type; }; template<> struct Bin<double,double>{ typedef double type; };
template<class A,class B> void pair(const M<A>&a,const M<B>&b){ typedef typename Bin<A,B>::type C; std::string d=TN<A>()+TN<B>()+" "+str(a)+" ; "+str(b); 
  if(a.r!=b.r||a.c!=b.c){ must_abort("dimensions +",d,[&]{ sp(a)+sp(b); }); must_abort("dimensions -",d,[&]{ sp(a)-sp(b); }); must_abort("dimensions *",d,[&]{ sp(a)*sp(b); }); return; }
  run("arithmetic",d,[&]{ Sparse<A> x=sp(a); Sparse<B> y=sp(b); N<C> s(Dims{a.r,a.c}),t(s.d),p(s.d); for(size_t k=0;k<s.v.size();k++){ C u=a.v[k],w=b.v[k]; s.v[k]=u+w; t.v[k]=u-w; p.v[k]=u*w; }
    is("sum",d,Sparse<C>(x+y),s); is("difference",d,Sparse<C>(x-y),t); is("product",d,Sparse<C>(x*y),p); keeps("sum",d,x,a); keeps("sum",d,y,b); });
}
template<class A,class B> void scalar(const M<A>&a,B b){ typedef typename Bin<A,B>::type C; std::string d=TN<A>()+TN<B>()+" "+str(a)+" and "+H::str(b);
  run("scalar",d,[&]{ Sparse<A> x=sp(a); N<C> p(Dims{a.r,a.c}),q(p.d); for(size_t k=0;k<p.v.size();k++){ p.v[k]=a.v[k]*b; q.v[k]=a.v[k]/b; if(!a.has[k]) q.v[k]=p.v[k]=C(0); }
    is("times scalar",d,Sparse<C>(x*b),p); is("scalar times",d,Sparse<C>(b*x),p); if(b!=B(0)) is("divided by scalar",d,Sparse<C>(x/b),q); keeps("scalar",d,x,a); }); }
template<class A> void neg(const M<A>&a){ std::string d=TN<A>()+" "+str(a); run("negation",d,[&]{ Sparse<A> x=sp(a); N<A> w=dense(a); for(auto&e:w.v) e=-e; is("negation",d,-x,w); keeps("negation",d,x,a); });
  scalar<A,double>(a,2.0); scalar<A,double>(a,-0.5); scalar<A,double>(a,0.0); scalar<A,cdouble>(a,cdouble(1,-2)); }
template<class A> void eq(const M<A>&a,const M<A>&b){ std::string d=TN<A>()+" "+str(a)+" ; "+str(b); bool w=a.r==b.r&&a.c==b.c&&a.v==b.v; run("equality",d,[&]{ Sparse<A> x=sp(a),y=sp(b); if(all_equal(x,y)!=w||all_equal(y,x)!=w) fail("equality",d+": contract says "+(w?"equal":"different")); if(all_equal(x,lib(dense(b)))!=w||all_equal(lib(dense(b)),x)!=w) fail("equality with dense",d); if(!all_equal(x,sp(a))) fail("equality",d+": not equal to itself"); }); }
template<class A,class B> void big(){ typedef typename Bin<A,B>::type C; for(long c:{(1L<<31)-1,1L<<31,(1L<<31)+1,(1L<<32)-1,1L<<32,(1L<<32)+5,1L<<40}) for(int q=0;q<(thorough?20:4);q++){ long R=rint(1,3); Big<A> a=rndbig<A>(R,c); Big<B> b=rndbig<B>(R,c); std::string d=str(a)+" ; "+str(b);
  run("very many columns",d,[&]{ Sparse<A> x=sp(a); Sparse<B> y=sp(b); Big<C> s{R,c,{}},t=s,p=s,n=s,h=s; for(auto&e:a.at){ s.at[e.first]+=e.second; t.at[e.first]+=e.second; n.at[e.first]=-e.second; h.at[e.first]=e.second*B(2.0); if(b.at.count(e.first)) p.at[e.first]=e.second*b.at[e.first]; } for(auto&e:b.at){ s.at[e.first]+=e.second; t.at[e.first]-=e.second; }
    is("sum",d,Sparse<C>(x+y),s); is("difference",d,Sparse<C>(x-y),t); is("product",d,Sparse<C>(x*y),p); is("times scalar",d,Sparse<C>(x*B(2.0)),h); Big<A> m{R,c,{}}; for(auto&e:a.at) m.at[e.first]=-e.second; is("negation",d,-x,m); Big<A> a2=a; if(!a.at.empty()) a2.at.erase(a2.at.begin()); if(!all_equal(x,sp(a))||(!a.at.empty()&&all_equal(x,sp(a2)))) fail("equality",d); }); } }
template<class A,class B> void many(){ big<A,B>();
  for(long r=0;r<=2;r++) for(long c=0;c<=2;c++){ unsigned long n=1ul<<(r*c); for(unsigned long k=0;k<n;k++) for(unsigned long l=0;l<n;l++) pair<A,B>(pattern<A>(r,c,k),pattern<B>(r,c,l)); }
  for(unsigned long k=0;k<64;k++) for(unsigned long l=0;l<64;l++) if(thorough||(k*7+l)%5==0){ pair<A,B>(pattern<A>(1,6,k),pattern<B>(1,6,l)); pair<A,B>(pattern<A>(3,2,k),pattern<B>(3,2,l)); pair<A,B>(pattern<A>(2,3,k,true),pattern<B>(2,3,l,true)); }
  for(int q=0;q<(thorough?2000:200);q++){ long r=rint(0,7),c=rint(0,7); M<A> a=rndpat<A>(r,c,(int)rint(0,100),q%3==0); M<B> b=rndpat<B>(r,c,(int)rint(0,100),q%4==0); if(q%5==0) for(size_t k=0;k<b.v.size();k++) if(a.has[k]&&b.has[k]&&std::imag(cdouble(a.v[k]))==0) b.v[k]=B(q%2?-std::real(cdouble(a.v[k])):std::real(cdouble(a.v[k]))); pair<A,B>(a,b); }
  for(int q=0;q<(thorough?300:40);q++){ long r=rint(1,2),c=rint(15,70); int da=(int)rint(0,2)*50,db=(int)rint(1,19)*5; pair<A,B>(rndpat<A>(r,c,q%3?da:(int)rint(2,98)),rndpat<B>(r,c,q%3?db:(int)rint(80,99))); pair<A,B>(rndpat<A>(r,c,db),rndpat<B>(r,c,da)); }
  for(int k=0;k<4;k++){ int x=(int)rint(5,95),y=(int)rint(5,95); long r=(k&1)?2:150,c=(k&1)?260:3; if(k==3){ r=c=40; } pair<A,B>(rndpat<A>(r,c,x),rndpat<B>(r,c,y)); }
  for(long r=0;r<=3;r++) for(long c=0;c<=3;c++) for(long s=0;s<=3;s++) for(long t=0;t<=3;t++) if(r!=s||c!=t) pair<A,B>(rndpat<A>(r,c,60),rndpat<B>(s,t,60));
}
template<class A> void single(){
  for(long r=0;r<=3;r++) for(long c=0;c<=2;c++){ unsigned long n=1ul<<(r*c); for(unsigned long k=0;k<n;k++) neg<A>(pattern<A>(r,c,k)); }
  for(int q=0;q<(thorough?300:60);q++) neg<A>(rndpat<A>(rint(0,8),rint(0,8),(int)rint(0,100),q%3==0));
  neg<A>(rndpat<A>(2,400,70)); neg<A>(rndpat<A>(300,3,50)); neg<A>(rndpat<A>(40,40,50)); for(int k=0;k<20;k++){ M<A> a=rndpat<A>(k%2?2:200,k%2?200:2,60),b=a; size_t p=k<2?b.v.size()-1:(size_t)rint(0,(long)b.v.size()-1); if(k%5){ b.has[p]=1; b.v[p]=b.v[p]+1.0; } eq<A>(a,b); }
  std::vector<M<A>> v; for(long r=0;r<=2;r++) for(long c=0;c<=2;c++){ unsigned long n=1ul<<(r*c); for(unsigned long k=0;k<n;k++){ M<A> m(r,c); for(long j=0;j<r*c;j++) if(k>>j&1){ m.has[(size_t)j]=1; m.v[(size_t)j]=1.0+(k+j)%2; } v.push_back(m); } } v.push_back(pattern<A>(1,4,5)); v.push_back(pattern<A>(4,1,5));
  for(auto&x:v) for(auto&y:v) eq<A>(x,y);
  for(int q=0;q<200;q++){ M<A> a=rndpat<A>(rint(1,6),rint(1,6),50),b=a; if(q%2){ size_t k=(size_t)rint(0,a.r*a.c-1); b.v[k]=b.v[k]+1.0; b.has[k]=b.v[k]!=A(0); if(!b.has[k]) b.v[k]=A(0); } eq<A>(a,b); }
}
int main(int c,char**v){ init(c,v); tiny=true; many<double,double>(); many<cdouble,cdouble>(); many<double,cdouble>(); many<cdouble,double>(); single<double>(); single<cdouble>(); return finish(); }
