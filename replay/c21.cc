#include "h.h"
template<class V> std::vector<double> dv(const V&v){ std::vector<double> r; for(long i=0;i<(long)v.size();i++) r.push_back(v[i]); return r; }
template<class V> std::vector<long> lv(const V&v){ std::vector<long> r; for(long i=0;i<(long)v.size();i++) r.push_back((long)v[i]); return r; }
template<class X> bool ordered(const std::vector<X>&v,bool rev){ for(size_t i=1;i<v.size();i++) if(rev?v[i-1]<v[i]:v[i-1]>v[i]) return false; return true; }
template<class X> std::vector<X> srt(std::vector<X> v){ std::sort(v.begin(),v.end()); return v; }
template<class X> void ndx(const char*k,const std::string&D,const std::vector<X>&v,const Indices&p,bool rev){ std::vector<long> q=lv(p); if(q.size()!=v.size()){ fail(k,D+": "+std::to_string(q.size())+" positions"); return; } std::vector<char> s(v.size()); std::vector<X> o; for(long x:q){ if(x<0||x>=(long)v.size()||s[x]){ fail(k,D+" not a permutation: "+vstr(q)); return; } s[x]=1; o.push_back(v[x]); } if(!ordered(o,rev)) fail(k,D+" gives order "+vstr(o)); }
void reals(const std::vector<double>&v,const Dims&d){ N<double> a(d); a.v=v; RT t=lib(a),u(t); for(int rev=0;rev<2;rev++){ std::string D=(rev?"decreasing ":"increasing ")+str(a); 
  run("sort tensor",D,[&]{ RT r=rev?sort(t,true):(v.size()%2?sort(t):sort(t,false)); std::vector<double> w=dv(r); check(dimsof(r.dimensions())==d,"sort keeps the dimensions",D); check(srt(w)==srt(v),"sort keeps the elements",D+" gives "+vstr(w)); check(ordered(w,rev),"sort orders the elements",D+" gives "+vstr(w)); same("operand of sort",D,t,a); same("copy of the operand of sort",D,u,a); });
  run("sort_indices tensor",D,[&]{ ndx("sort_indices",D,v,rev?sort_indices(t,true):sort_indices(t),rev); same("operand of sort_indices",D,t,a); }); } }
void ints(const std::vector<long>&v){ Indices t((long)v.size()); for(size_t i=0;i<v.size();i++) t.at((long)i)=v[i]; Indices u(t); for(int rev=0;rev<2;rev++){ std::string D=(rev?"decreasing ":"increasing ")+vstr(v);
  run("sort indices",D,[&]{ std::vector<long> w=lv(rev?sort(t,true):sort(t)); check(srt(w)==srt(v),"sort keeps the elements of an index list",D+" gives "+vstr(w)); check(ordered(w,rev),"sort orders an index list",D+" gives "+vstr(w)); check(lv(t)==v&&lv(u)==v,"operand of sort",D); });
  run("sort_indices indices",D,[&]{ ndx("sort_indices of an index list",D,v,rev?sort_indices(t,true):sort_indices(t),rev); check(lv(t)==v&&lv(u)==v,"operand of sort_indices",D); }); } }
int main(int c,char**v){ init(c,v); const double inf=HUGE_VAL; double sp[]={0.0,1.0,-1.0,inf,-inf,1e308,-1e308,5e-324,-5e-324,1+2.3e-16,1-1.2e-16,9007199254740993.0,1e-10}; long si[]={0,1,-1,LONG_MAX,LONG_MIN,LONG_MAX-1,LONG_MIN+1,(1L<<53),(1L<<53)+1,(1L<<53)+2,-(1L<<53)-1,-(1L<<53),(1L<<62)+1,(1L<<62),(1L<<31),-(1L<<31)-1,(1L<<32),3};
  // every short list over few values (duplicates in every arrangement)
  for(int n=0;n<=5;n++){ long m=1; for(int i=0;i<n;i++) m*=3; for(long q=0;q<m;q++){ std::vector<double> a; std::vector<long> b; long k=q; for(int i=0;i<n;i++,k/=3){ a.push_back(k%3-1.0); b.push_back(k%3-1); } reals(a,Dims{n}); ints(b); } }
  // sorted but for one element, at either end or in the middle, belonging anywhere
  for(long n=3;n<=(thorough?40:20);n++) for(long e:{0L,n/2,n-1}) for(long w=-1;w<=n;w+=(n>12?2:1)) for(int up=0;up<2;up++){ std::vector<double> a; std::vector<long> b; for(long i=0;i<n;i++){ a.push_back(up?i:-i); b.push_back(up?2*i:-2*i); } a[e]=up?w+0.5:-w-0.5; b[e]=up?2*w+1:-2*w-1; reals(a,Dims{n}); ints(b); }
  int T=thorough?3000:300; for(int t=0;t<T;t++){ long n=t%50==49?rint(1000,6000):t%10==9?rint(17,900):rint(2,40); int mode=(int)rint(0,5); std::vector<double> a; std::vector<long> b; for(long i=0;i<n;i++){ a.push_back(mode==0?sp[rint(0,12)]:mode==1?rint(-3,3):mode==2?(double)i*(t%2?1:-1):rint(-1000000,1000000)/7.0); b.push_back(mode==0?si[rint(0,17)]:mode==1?rint(-3,3):mode==2?(t%2?i:-i):mode==3?(1L<<53)+rint(-20,20):mode>=4?(t%2?i:-i):0); } if(mode>=4){ for(long i=0;i<n;i++) a[i]=t%2?i:-i; for(int z=(int)rint(1,2);z--;){ long i=mode==4?rint(0,1)*(n-1):rint(0,n-1),w=rint(-2,n+2); a[i]=t%2?w+0.5:-w; b[i]=t%2?w:-w; } } reals(a,Dims{n}); ints(b); if(n%2==0) reals(a,Dims{2,n/2}); if(n%6==0) reals(a,Dims{n/6,2,3}); }
  return finish(); }
