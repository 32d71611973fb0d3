#include "h.h"
typedef std::vector<long> L;
std::vector<long> vec(const Indices&i){ std::vector<long> v; for(long k=0;k<(long)i.size();k++) v.push_back(i[k]); return v; }
template<class E> std::vector<E> lin(E a,E b,long n){ std::vector<E> v; for(long i=0;i<n;i++) v.push_back(i==0?a:i==n-1?b:a+(b-a)*((double)i/(double)(n-1))); return v; }
template<class E> void linspaces(E*){ std::string T=TN<E>();
  for(long n=0;n<=12;n++) for(int it=0;it<4;it++){ E a=elem((E*)0),b=elem((E*)0); if(it==3) b=a; std::string d=T+str(a)+".."+str(b)+" n="+std::to_string(n);
    run("linspace",d,[&]{ N<E> w; w.d={n}; w.v=lin(a,b,n); same("linspace",d,linspace(a,b,n),w,1e-12); if(n>=1){ check(linspace(a,b,n)[0]==a,"linspace first",d); } }); }
  auto S=shapes(3,1,3); for(auto&s:big(5)) S.push_back(s); for(auto&s:S) for(long n=0;n<=5;n++){ N<E> a=rnd_n<E>(s),b=rnd_n<E>(s); long m=prod(s); std::string d=T+str(a)+".."+str(b)+" n="+std::to_string(n);
    run("linspace tensor",d,[&]{ N<E> w; if(m==1) w.d={n}; else { w.d=s; w.d.push_back(n); } for(long q=0;q<n;q++) for(long i=0;i<m;i++) w.v.push_back(lin(a.v[i],b.v[i],n)[q]); same("linspace tensor",d,linspace(lib(a),lib(b),n),w,1e-12); }); } }
int main(int c,char**v){ init(c,v);
  for(int it=0;it<(thorough?4000:600);it++){ L a(rint(0,it<40?3:it%20==0?700:20)),b(rint(0,it<40?3:it%30==0?700:20)); for(auto&x:a) x=rint(-5,9); for(auto&x:b) x=rint(-5,9); std::string d=vstr(a)+" << "+vstr(b);
    run("concatenation",d,[&]{ L w=a; w.insert(w.end(),b.begin(),b.end()); Indices A=ind(a),B=ind(b); Indices r=A<<B; samev("concatenation",d,r,w); samev("concatenation operand",d,A,a); samev("concatenation operand",d,B,b); });
    run("concatenation with itself",vstr(a),[&]{ L w=a; w.insert(w.end(),a.begin(),a.end()); Indices A=ind(a); A=(A<<A); samev("concatenation with itself",d,A,w); });
    run("igen",d,[&]{ if(b.size()>=2&&b.size()<=4){ Indices g; if(b.size()==2) g=igen<<b[0]<<b[1]; if(b.size()==3) g=igen<<b[0]<<b[1]<<b[2]; if(b.size()==4) g=igen<<b[0]<<b[1]<<b[2]<<b[3]; samev("igen",vstr(b),g,b); } });
    run("index_to_tensor",vstr(a),[&]{ RT t=index_to_tensor(ind(a)); N<double> w({(long)a.size()}); for(size_t i=0;i<a.size();i++) w.v[i]=a[i]; same("index_to_tensor",vstr(a),t,w); });
  }
  for(long a=-6;a<=6;a++) for(long b=-6;b<=14;b++) for(long s=1;s<=7;s++){ std::string d=std::to_string(a)+":"+std::to_string(s)+":"+std::to_string(b);
    L w; for(long x=a;x<=b;x+=s) w.push_back(x); run("range",d,[&]{ samev("range",d,Indices::range(a,b,s),w); samev("iota",d,iota(a,b,s),w); if(s==1){ samev("range1",d,Indices::range(a,b),w); samev("iota1",d,iota(a,b),w); } }); }
  for(int it=0;it<(thorough?4000:800);it++){ int r=rint(1,7); if(it%10==0) r=rint(8,12); L d(r); for(auto&x:d) x=rint(it%5?1:0,r>7?3:6); if(it%9==0) d[rint(0,r-1)]=rint(100,5000); std::string s=vstr(d);
    run("total_size",s,[&]{ check(ind(d).total_size()==prod(d),"total_size",s); });
    for(int i=0;i<r;i++) run("surrounding",s+std::to_string(i),[&]{ tensor::index a=-1,b=-1,e=-1; surrounding_dimensions(ind(d),i,&a,&b,&e); long p=1,q=1; for(int k=0;k<i;k++) p*=d[k]; for(int k=i+1;k<r;k++) q*=d[k];
      check(a==p&&b==d[i]&&e==q,"surrounding",s+" at "+std::to_string(i)+" gives "+vstr(L{a,b,e})); }); }
  linspaces((double*)0); linspaces((cdouble*)0);
  for(int n=0;n<50;n++){ run("linspace irrational","",[&]{ double a=rint(-100,100)/7.0,b=rint(-100,100)/3.0; long m=rint(2,300); RT t=linspace(a,b,m); N<double> w; w.d={m}; w.v=lin(a,b,m); same("linspace",str(a)+".."+str(b),t,w,1e-11); }); }
  return finish(); }
