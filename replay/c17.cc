#include "sp.h"
template<class E> void reads(const std::string&d,const Sparse<E>&s,const N<E>&w,bool ab){ long r=w.d[0],c=w.d[1];
  for(long i=-r;i<r;i++) for(long j=-c;j<c;j++) run("element",d+" at ("+std::to_string(i)+","+std::to_string(j)+")",[&]{ E x=s(i,j),y=w(Dims{i<0?i+r:i,j<0?j+c:j}); if(!(x==y)) fail("element",d+": element ("+std::to_string(i)+","+std::to_string(j)+") is "+H::str(x)+", contract says "+H::str(y)); });
  if(ab){ if(c) for(long i:{r,-r-1,r+3}) must_abort("row out of range",d+" row "+std::to_string(i),[&]{ s(i,0); }); if(r) for(long j:{c,-c-1,c+2}) must_abort("column out of range",d+" column "+std::to_string(j),[&]{ s(0,j); }); } }
template<class E> void one(const M<E>&m,bool ab){ std::string d=TN<E>()+" "+str(m); N<E> w=dense(m);
  run("raw",d,[&]{ Sparse<E> s=sp(m); is("raw",d,s,w); same("full",d,full(s),w); Sparse<E> t(s); is("copy",d,t,w); Sparse<E> u; u=s; is("assign",d,u,w); if((long)s.dimension(0)!=m.r||(long)s.dimension(1)!=m.c) fail("raw",d+": dimension()"); reads(d,s,w,ab); });
  run("from dense",d,[&]{ Tensor<E> t=lib(w); Sparse<E> s(t); is("from dense",d,s,w); for(long k=0;k<(long)s.priv_data().size();k++) if(s.priv_data()[k]==E(0)) fail("from dense",d+": zero stored"); same("from dense and back",d,full(s),w); same("dense argument",d,t,w); if(!all_equal(s,t)||!all_equal(t,s)) fail("equality with dense",d); });
}
// coordinates: entries (i,j,v) in the given order
template<class E> struct T { long i,j; E v; };
template<class E> void coords(const std::vector<T<E>>&l,long r,long c){ std::string d=TN<E>()+" coordinates"; Dims I,J; std::vector<E> V; long R=r,C=c; std::map<std::pair<long,long>,std::vector<E>> at;
  for(auto&t:l){ d+=" ("+std::to_string(t.i)+","+std::to_string(t.j)+")="+H::str(t.v); I.push_back(t.i); J.push_back(t.j); V.push_back(t.v); R=std::max(R,t.i+1); C=std::max(C,t.j+1); at[{t.i,t.j}].push_back(t.v); }
  d+=" rows "+std::to_string(r)+" columns "+std::to_string(c);
  run("coordinates",d,[&]{ Tensor<E> v((tensor::index)V.size()); for(size_t k=0;k<V.size();k++) v.at((long)k)=V[k]; Indices ii=ind(I),jj=ind(J);
    Sparse<E> s= r||c? Sparse<E>(ii,jj,v,r,c): Sparse<E>(ii,jj,v); samev("coordinate argument",d,ii,I); samev("coordinate argument",d,jj,J); samev("coordinate argument",d,v,V);
    if(!wf("coordinates",d,s)) return; if((long)s.rows()!=R||(long)s.columns()!=C){ fail("coordinates",d+": dimensions "+std::to_string((long)s.rows())+"x"+std::to_string((long)s.columns())+", contract says "+std::to_string(R)+"x"+std::to_string(C)); return; }
    N<E> a=den(s); for(long i=0;i<R;i++) for(long j=0;j<C;j++){ E x=a(Dims{i,j}); auto f=at.find({i,j}); bool ok=false; if(f==at.end()) ok=x==E(0); else { for(E y:f->second) ok=ok||x==y; bool allz=true; for(E y:f->second) allz=allz&&y==E(0); if(!allz&&x==E(0)) ok=false; } if(!ok){ fail("coordinates",d+": element ("+std::to_string(i)+","+std::to_string(j)+") is "+H::str(x)); return; } } });
}
// matrices with very many columns (never expanded)
template<class E> void huge(){ const long cs[]={(1L<<31)-1,1L<<31,(1L<<31)+1,(1L<<32)-1,1L<<32,(1L<<32)+5,1L<<40};
  for(long C:cs) for(int q=0;q<(thorough?20:4);q++){ long R=rint(1,3); std::map<std::pair<long,long>,E> at; for(int k=0;k<5;k++){ long b[]={0,3,(1L<<31)-1,1L<<31,(1L<<31)+3,(1L<<32)-1,1L<<32,(1L<<32)+3,C/2,C-1}; long j=b[rint(0,9)]; if(j<C) at[{rint(0,R-1),j}]=elemnz((E*)0); }
    Dims rs(1,0),co; std::vector<E> da; Dims I,J; std::string d=TN<E>()+" "+std::to_string(R)+"x"+std::to_string(C); for(long i=0;i<R;i++){ for(auto&x:at) if(x.first.first==i){ co.push_back(x.first.second); da.push_back(x.second); I.push_back(i); J.push_back(x.first.second); d+=" ("+std::to_string(i)+","+std::to_string(x.first.second)+")="+H::str(x.second); } rs.push_back((long)co.size()); }
    Tensor<E> v((tensor::index)da.size()); for(size_t k=0;k<da.size();k++) v.at((long)k)=da[k];
    auto look=[&](const char*n,const Sparse<E>&s){ if(!wf(n,d,s)) return; if((long)s.rows()!=R||(long)s.columns()!=C){ fail(n,d+": dimensions"); return; } if((size_t)s.length()!=at.size()) fail(n,d+": length()");
      for(long i=0;i<R;i++) for(long j:{0L,3L,(1L<<31)-1,1L<<31,(1L<<31)+3,(1L<<32)-1,1L<<32,(1L<<32)+3,C/2,C-1}) if(j<C){ auto f=at.find({i,j}); E y=f==at.end()?E(0):f->second; if(!(s(i,j)==y)) fail(n,d+": element ("+std::to_string(i)+","+std::to_string(j)+") is "+H::str(s(i,j))+", contract says "+H::str(y)); if(!(s(i-R,j-C)==y)) fail(n,d+": element ("+std::to_string(i-R)+","+std::to_string(j-C)+")"); } };
    run("many columns",d,[&]{ Sparse<E> s(ind(Dims{R,C}),ind(rs),ind(co),v); look("many columns",s); });
    run("many columns, coordinates",d,[&]{ Sparse<E> s(ind(I),ind(J),v,R,C); look("many columns, coordinates",s); Sparse<E> a=s+s,b=s*E(2.0),m=s-s; Tensor<E> w=a.priv_data(); if(!wf("many columns, sum",d,a)||!wf("many columns, scalar",d,b)||!wf("many columns, difference",d,m)) return;
      for(auto&x:at){ long i=x.first.first,j=x.first.second; E y=x.second; if(!(a(i,j)==y+y)||!(b(i,j)==y*E(2.0))||!(m(i,j)==E(0))) fail("many columns, arithmetic",d); } }); } }
template<class E> void all(){
  for(long r=0;r<=3;r++) for(long c=0;c<=3;c++){ unsigned long n=1ul<<(r*c); for(unsigned long k=0;k<n;k++) if(n<=64||thorough||k%4==0||k>n-9) one<E>(pattern<E>(r,c,k),k%16==0||n<16); }
  for(int q=0;q<(thorough?400:60);q++) one<E>(rndpat<E>(rint(0,9),rint(0,9),(int)rint(0,100),q%3==0),true);
  one<E>(rndpat<E>(1,40,30),true); one<E>(rndpat<E>(40,1,30),true); one<E>(rndpat<E>(25,25,5),true); one<E>(rndpat<E>(1,300,70),false); one<E>(rndpat<E>(3,150,90),false); one<E>(rndpat<E>(150,3,80),false); one<E>(rndpat<E>(2,1100,50),false); for(int q=0;q<(thorough?30:6);q++){ one<E>(rndpat<E>(1,rint(90,400),rint(1,6),true),false); one<E>(rndpat<E>(rint(2,4),rint(90,250),rint(1,4),true),false); }
  huge<E>();
  for(long r=0;r<=5;r++) for(long c=0;c<=5;c++){ std::string d=TN<E>()+" "+std::to_string(r)+"x"+std::to_string(c); N<E> w(Dims{r,c}); for(long i=0;i<std::min(r,c);i++) w(Dims{i,i})=1.0; N<E> z(Dims{r,c});
    run("eye",d,[&]{ is("eye",d,Sparse<E>::eye(r,c),w); if(r==c) is("eye",d,Sparse<E>::eye(r),w); });
    run("zeros",d,[&]{ is("zeros",d,Sparse<E>(r,c),z); same("zeros",d,full(Sparse<E>(r,c)),z); reads(d,Sparse<E>(r,c),z,true); }); 
    for(double p:{0.0,0.2,0.5,1.0}) run("random",d+" density "+H::str(p),[&]{ Sparse<E> s=Sparse<E>::random(r,c,p); wf("random",d,s); if((long)s.rows()!=r||(long)s.columns()!=c) fail("random",d+": dimensions"); });
    run("random",d,[&]{ wf("random",d,Sparse<E>::random(r,c)); }); }
  run("empty","default constructor",[&]{ is("empty","default constructor",Sparse<E>(),N<E>(Dims{0,0})); same("empty","full",full(Sparse<E>()),N<E>(Dims{0,0})); });
  // coordinates: every list of up to three (thorough: four) positions of a 2x2 or 2x3 matrix, with repetitions, then random ones
  for(int L=0;L<=(thorough?4:3);L++){ long n=1; for(int q=0;q<L;q++) n*=6; for(long x=0;x<n;x++){ std::vector<T<E>> l; long y=x; for(int q=0;q<L;q++){ long p=y%6; y/=6; l.push_back({p%2,p/2,elemnz((E*)0)}); } coords<E>(l,0,0); if(x%3==0) coords<E>(l,2,3); if(x%5==0) coords<E>(l,rint(0,4),rint(0,4)); } }
  for(int q=0;q<(thorough?2000:300);q++){ std::vector<T<E>> l; long n=rint(0,12),R=rint(1,6),C=rint(1,6); for(long k=0;k<n;k++) l.push_back({rint(0,R-1),rint(0,C-1),rint(0,5)?elemnz((E*)0):E(0)}); coords<E>(l,q%2?0:rint(0,7),q%2?0:rint(0,7)); }
  { std::vector<T<E>> l; for(long k=0;k<200;k++) l.push_back({rint(0,19),rint(0,19),elemnz((E*)0)}); coords<E>(l,0,0); coords<E>(l,30,25); }
  for(long n:{299,300,301,302,600,1100,3000}) for(int w=0;w<3;w++){ std::vector<T<E>> l; long R=w==1?3:w==2?900:60,C=w==1?900:w==2?3:60; for(long k=0;k<n;k++) l.push_back({rint(0,R-1),rint(0,C-1),elemnz((E*)0)}); coords<E>(l,0,0); if(w) coords<E>(l,R+5,C+3); }
  for(int k=0;k<3;k++){ Indices a=ind(Dims{0,1}),b=ind(Dims{1,0}),s=ind(Dims{1}); Tensor<E> v=lib(N<E>(Dims{2})),v1=lib(N<E>(Dims{1})); must_abort("coordinate lengths",std::to_string(k),[&]{ if(k==0) Sparse<E>(a,s,v); if(k==1) Sparse<E>(s,b,v); if(k==2) Sparse<E>(a,b,v1); }); }
}
int main(int c,char**v){ init(c,v); tiny=true; all<double>(); all<cdouble>();
  for(int q=0;q<60;q++){ M<double> m=rndpat<double>(rint(0,5),rint(0,5),40); run("conversion",str(m),[&]{ CSparse z(sp(m)); N<double> w=dense(m); N<cdouble> u(w.d); for(size_t k=0;k<w.v.size();k++) u.v[k]=w.v[k]; is("conversion",str(m),z,u); }); }
  return finish(); }
