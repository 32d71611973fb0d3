#include "h.h"
typedef std::vector<char> M;
void samem(const std::string&k,const std::string&d,const Booleans&g,const M&w){ if((size_t)g.size()!=w.size()){ fail(k,d+": length "+std::to_string((long)g.size())); return; } for(size_t i=0;i<w.size();i++) if(g[i]!=(bool)w[i]){ fail(k,d+": entry "+std::to_string(i)+" is "+(g[i]?"true":"false")); return; } }
template<class T> Booleans bl(const T&v){ Booleans b((long)v.size()); for(size_t i=0;i<v.size();i++) b.at(i)=v[i]; return b; }
template<class A,class B,class LA,class LB> void cmp(const std::string&nm,const std::vector<A>&a,const std::vector<B>&b,const LA&la,const LB&lb,size_t n){
  auto x=[&](size_t i){ return a.size()==1&&n!=1? a[0]:a[i]; }; auto y=[&](size_t i){ return b.size()==1&&n!=1? b[0]:b[i]; };
#define C(op) { std::string d=nm+" " #op " "+vstr(a)+" "+vstr(b); run(nm+" " #op,d,[&]{ M w; for(size_t i=0;i<n;i++) w.push_back(x(i) op y(i)); samem(nm+" " #op,d,la op lb,w); }); }
  C(<) C(>) C(<=) C(>=) C(==) C(!=)
#undef C
}
template<class A,class B,class LA,class LB> void cmpz(const std::string&nm,const std::vector<A>&a,const std::vector<B>&b,const LA&la,const LB&lb,size_t n){
  auto x=[&](size_t i){ return a.size()==1&&n!=1? a[0]:a[i]; }; auto y=[&](size_t i){ return b.size()==1&&n!=1? b[0]:b[i]; };
#define C(op) { std::string d=nm+" " #op " "+vstr(a)+" "+vstr(b); run(nm+" " #op,d,[&]{ M w; for(size_t i=0;i<n;i++) w.push_back(x(i) op y(i)); samem(nm+" " #op,d,la op lb,w); }); }
  C(==) C(!=)
#undef C
}
Indices li(const std::vector<long>&v){ return ind(v); }
int main(int c,char**v){ init(c,v);
  std::vector<double> vals={-2,-1,0,1,2,0.5,-0.0,INFINITY,-INFINITY,NAN,1e-300,-1e-300,1+1e-15};
  std::vector<long> lv={-2,-1,0,1,2,(1L<<40)+1,-(1L<<40),(1L<<53)+1,1L<<53,LONG_MAX,LONG_MIN};
  for(int it=0;it<(thorough?3000:300);it++){ long n=it<60? it%8 : it%20==0? rint(100,1500): rint(0,40);
    N<double> a({n}),b({n}); N<cdouble> z({n}),y({n}); std::vector<long> p(n),q(n); bool full=it%2;
    auto el=[&]{ return full? vals[rint(0,vals.size()-1)] : (double)rint(-2,2); }; auto ll=[&]{ return full? lv[rint(0,lv.size()-1)] : rint(-2,2); };
    for(int i=0;i<n;i++){ a.v[i]=el(); b.v[i]=rint(0,3)?el():a.v[i]; z.v[i]=cdouble(el(),el()); int k=rint(0,3); y.v[i]= k==0? z.v[i]: k==1? cdouble(z.v[i].real(),el()) : k==2? cdouble(el(),z.v[i].imag()) : cdouble(el(),el()); p[i]=ll(); q[i]=ll(); }
    if(it%3==0 && n==6){ a.d={2,3}; b.d={2,3}; z.d={3,2}; y.d={3,2}; }
    RT A=lib(a),B=lib(b); CT Z=lib(z),Y=lib(y); Indices P=li(p),Q=li(q); double s=el(); cdouble t(el(),el()); if(n&&it%3) t=z.v[0]; long u=ll();
    cmp("tensor,tensor",a.v,b.v,A,B,n); cmp("tensor,scalar",a.v,std::vector<double>{s},A,s,n); cmp("scalar,tensor",std::vector<double>{s},a.v,s,A,n);
    cmp("indices,indices",p,q,P,Q,n); cmp("indices,index",p,std::vector<long>{u},P,u,n); cmp("index,indices",std::vector<long>{u},p,u,P,n);
    cmpz("ctensor,ctensor",z.v,y.v,Z,Y,n); cmpz("ctensor,scalar",z.v,std::vector<cdouble>{t},Z,t,n); cmpz("scalar,ctensor",std::vector<cdouble>{t},z.v,t,Z,n);
    run("unchanged operands","",[&]{ N<double> pa=plain(A); check(pa.d==a.d && !memcmp(pa.v.data(),a.v.data(),8*n),"unchanged operands",str(a)); });
    auto alleq=[&](const std::string&nm,bool g,bool w,const std::string&d){ run("all_equal "+nm,d,[&]{ check(g==w,"all_equal "+nm,d+" gives "+(g?"true":"false")); }); };
    auto eqv=[](auto&x,auto&y){ if(x.size()!=y.size()) return false; for(size_t i=0;i<x.size();i++) if(!(x[i]==y[i])) return false; return true; };
    N<double> a2=a; N<cdouble> z2=z; std::vector<long> p2=p; if(n && rint(0,2)){ int i=rint(0,n-1); a2.v[i]=el(); z2.v[i]=cdouble(z2.v[i].real(),el()); p2[i]=ll(); }
    RT A2=lib(a2); CT Z2=lib(z2); alleq("tensors",all_equal(A,A2),a.d==a2.d&&eqv(a.v,a2.v),str(a)+str(a2)); alleq("complex tensors",all_equal(Z,Z2),eqv(z.v,z2.v),str(z)+str(z2)); alleq("indices",all_equal(P,li(p2)),eqv(p,p2),vstr(p)+vstr(p2));
    alleq("tensor scalar",all_equal(A,s),eqv(a.v,*new std::vector<double>(n,s)),str(a)+str(s)); alleq("scalar tensor",all_equal(s,A),eqv(a.v,*new std::vector<double>(n,s)),str(a)+str(s)); alleq("complex scalar",all_equal(Z,t),eqv(z.v,*new std::vector<cdouble>(n,t)),str(z)+str(t));
    { N<double> w(a.d); for(auto&x:w.v) x=s; RT W=lib(w); alleq("constant",all_equal(W,s),s==s||n==0,str(w)+str(s)); N<cdouble> cz(z.d); for(auto&x:cz.v) x=t; CT CZ=lib(cz); alleq("complex constant",all_equal(CZ,t),t==t||n==0,str(cz)+str(t)); }
    if(n==6){ N<double> r=a; r.d={3,2}; alleq("shapes",all_equal(lib(a),lib(r)),a.d==r.d&&eqv(a.v,a.v),str(a)+str(r)); r.d={6,1}; alleq("shapes",all_equal(lib(a),lib(r)),false,str(a)+str(r)); N<cdouble> rz=z; rz.d={1,6}; alleq("shapes",all_equal(lib(z),lib(rz)),false,str(z)+str(rz)); }
    { std::vector<long> l=p; l.push_back(0); alleq("lengths",all_equal(P,li(l)),false,vstr(p)+vstr(l)); N<double> e({n+1}); for(int i=0;i<n;i++) e.v[i]=a.v[i]; if(a.d.size()==1) alleq("lengths",all_equal(A,lib(e)),false,str(a)+str(e)); 
#define AB(op) must_abort("mismatch " #op,vstr(p)+vstr(l),[&]{ Booleans m=(P op li(l)); }); must_abort("mismatch " #op,vstr(p)+vstr(l),[&]{ Booleans m=(li(l) op P); }); must_abort("mismatch " #op,str(a)+str(e),[&]{ Booleans m=(A op lib(e)); }); must_abort("mismatch " #op,str(a)+str(e),[&]{ Booleans m=(lib(e) op A); });
      if(it<40){ AB(<) AB(>) AB(<=) AB(>=) AB(==) AB(!=) N<cdouble> ez({n+1}); must_abort("mismatch z",str(z),[&]{ Booleans m=(Z==lib(ez)); }); must_abort("mismatch z",str(z),[&]{ Booleans m=(lib(ez)!=Z); }); 
        must_abort("mismatch &&",std::to_string(n),[&]{ Booleans m=bl(std::vector<char>(n,1))&&bl(std::vector<char>(n+1,1)); }); must_abort("mismatch ||",std::to_string(n),[&]{ Booleans m=bl(std::vector<char>(n+1,1))||bl(std::vector<char>(n,1)); }); } }
  }
  auto masks=[&](const M&m,const M&k){ std::string d=vstr(std::vector<int>(m.begin(),m.end())); long n=m.size(); Booleans b=bl(m),e=bl(k);
    run("not",d,[&]{ M w; for(char x:m) w.push_back(!x); samem("not",d,!b,w); }); run("and",d,[&]{ M w; for(int i=0;i<n;i++) w.push_back(m[i]&&k[i]); samem("and",d+vstr(std::vector<int>(k.begin(),k.end())),b&&e,w); });
    run("or",d,[&]{ M w; for(int i=0;i<n;i++) w.push_back(m[i]||k[i]); samem("or",d+vstr(std::vector<int>(k.begin(),k.end())),b||e,w); });
    run("quantifiers",d,[&]{ long t=0; std::vector<long> w; for(int i=0;i<n;i++) if(m[i]){ t++; w.push_back(i); } check(all_of(b)==(t==n),"all_of",d); check(any_of(b)==(t>0),"any_of",d); check(none_of(b)==(t==0),"none_of",d); samev("which","which "+d,which(b),w); }); };
  for(int n=0;n<=(thorough?11:9);n++) for(int x=0;x<(1<<n);x++){ M m(n),k(n); int y=(x*37+11)&((1<<n)-1); for(int i=0;i<n;i++){ m[i]=x>>i&1; k[i]=y>>i&1; } masks(m,k); }
  for(int it=0;it<200;it++){ long n=rint(0,300); M m(n),k(n); int pr=rint(1,20); for(int i=0;i<n;i++){ m[i]=rint(0,pr)==0; k[i]=rint(0,1); } if(it%7==0) for(auto&x:m) x=1; masks(m,k); }
  return finish(); }
