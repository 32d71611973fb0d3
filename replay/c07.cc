#include "h.h"
template<class A,class B> struct R_ { typedef cdouble t; }; template<> struct R_<double,double>{ typedef double t; };
template<class E> E nz(){ return elemnz((E*)0); } template<class E> E el(){ return elem((E*)0); }
std::vector<Dims> SH(){ auto s=shapes(3,0,3,27); s.push_back({1,1,1,2}); for(auto&d:big()) s.push_back(d); s.push_back({rint(20,200)}); s.push_back({rint(5,20),rint(5,20)}); if(thorough) for(int i=0;i<40;i++) s.push_back({rint(1,9),rint(1,9),rint(1,9)}); return s; }
#define OPS(X) X(+,"+") X(-,"-") X(*,"*") X(/,"/")
template<class A,class B> void bin(){
  typedef typename R_<A,B>::t R; std::string T=TN<A>()+TN<B>();
  for(auto&d:SH()){
    N<A> a=rnd_n<A>(d); N<B> b=rnd_n<B>(d,true); Tensor<A> ta=lib(a); Tensor<B> tb=lib(b); B y=nz<B>(); A x=el<A>();
    std::string D=T+" "+str(a)+" "+str(b)+" scalars "+str(x)+","+str(y);
#define X(op,nm) run("tensor " nm " tensor",D,[&]{ N<R> w(d); for(size_t i=0;i<w.v.size();i++) w.v[i]=R(a.v[i]) op R(b.v[i]); Tensor<R> r=ta op tb; same("tensor " nm " tensor",D,r,w,1e-13); same("operand",D,ta,a); same("operand",D,tb,b); }); \
    run("tensor " nm " scalar",D,[&]{ N<R> w(d); for(size_t i=0;i<w.v.size();i++) w.v[i]=R(a.v[i]) op R(y); Tensor<R> r=ta op y; same("tensor " nm " scalar",D,r,w,1e-13); same("operand",D,ta,a);}); \
    run("scalar " nm " tensor",D,[&]{ N<R> w(d); for(size_t i=0;i<w.v.size();i++) w.v[i]=R(x) op R(b.v[i]); Tensor<R> r=x op tb; same("scalar " nm " tensor",D,r,w,1e-13); same("operand",D,tb,b);}); \
    { Dims e=d; e[0]++; if(prod(e)!=prod(d)) must_abort("mismatch " nm,D,[&]{ Tensor<B> o(ind(e)); o.fill_with_zeros(); Tensor<R> r=ta op o; }); }
    OPS(X)
#undef X
  }
}
template<class A,class B> void inp(){
  std::string T=TN<A>()+TN<B>();
  for(auto&d:SH()){
    N<A> a=rnd_n<A>(d); N<B> b=rnd_n<B>(d,true); Tensor<B> tb=lib(b); B y=nz<B>(); std::string D=T+" "+str(a)+" "+str(b)+" scalar "+str(y);
#define X(op,nm) run("tensor " nm "= tensor",D,[&]{ Tensor<A> ta=lib(a), cp(ta); N<A> w(d); for(size_t i=0;i<w.v.size();i++) w.v[i]=a.v[i] op A(b.v[i]); ta op##= tb; same("tensor " nm "= tensor",D,ta,w,1e-13); same("copy of the target",D,cp,a); same("operand",D,tb,b); }); \
    run("tensor " nm "= scalar",D,[&]{ Tensor<A> ta=lib(a), cp(ta); N<A> w(d); for(size_t i=0;i<w.v.size();i++) w.v[i]=a.v[i] op A(y); ta op##= y; same("tensor " nm "= scalar",D,ta,w,1e-13); same("copy of the target",D,cp,a); });
    OPS(X)
#undef X
  }
}
template<class A> void own(){
  std::string T=TN<A>();
  for(auto&d:SH()) if(prod(d)>0){ N<A> a=rnd_n<A>(d,true); std::string D=T+" "+str(a);
#define X(op,nm) run("a " nm "= a",D,[&]{ Tensor<A> t=lib(a); N<A> w(d); for(size_t i=0;i<w.v.size();i++) w.v[i]=a.v[i] op a.v[i]; t op##= t; same("a " nm "= a",D,t,w,1e-13); }); \
    for(long q=0;q<prod(d);q+=1+prod(d)/5) run("a " nm "= a[i]",D+" i="+std::to_string(q),[&]{ Tensor<A> t=lib(a); N<A> w(d); for(size_t i=0;i<w.v.size();i++) w.v[i]=a.v[i] op a.v[q]; const Tensor<A>&c=t; t op##= c[q]; same("a " nm "= a[i]",D,t,w,1e-13); }); \
    run("a " nm " copy of a",D,[&]{ Tensor<A> t=lib(a), u(t); N<A> w(d); for(size_t i=0;i<w.v.size();i++) w.v[i]=a.v[i] op a.v[i]; Tensor<A> r=t op u; same("a " nm " copy",D,r,w,1e-13); t=t op t; same("a=a " nm " a",D,t,w,1e-13); same("copy",D,u,a); });
    OPS(X)
#undef X
  }
}
#define U(T1,T2,nm,expr,oracle) run(nm,D,[&]{ N<T2> w(a.d); for(size_t i=0;i<w.v.size();i++){ T1 x=a.v[i]; (void)x; w.v[i]=oracle; } same(nm,D,expr,w,1e-12); same("operand",D,t,a); });
template<class A> void un(const N<A>&a){ Tensor<A> t=lib(a); std::string D=TN<A>()+" "+str(a);
  U(A,A,"negation",(-t),-x) U(A,A,"exp",exp(t),std::exp(x)) U(A,A,"sin",sin(t),std::sin(x)) U(A,A,"cos",cos(t),std::cos(x)) U(A,A,"tan",tan(t),std::tan(x))
  U(A,A,"sinh",sinh(t),std::sinh(x)) U(A,A,"cosh",cosh(t),std::cosh(x)) U(A,A,"tanh",tanh(t),std::tanh(x)) U(A,A,"sqrt",sqrt(t),std::sqrt(x)) U(A,A,"log",log(t),std::log(x))
  U(A,double,"abs",abs(t),std::abs(x)) U(A,A,"conj",conj(t),cj(x)) U(A,double,"real",real(t),std::real(x)) U(A,double,"imag",imag(t),std::imag(x)) U(A,cdouble,"to_complex",to_complex(t),cdouble(x)) }
int main(int c,char**v){ init(c,v); fine=true;
  bin<double,double>(); bin<cdouble,cdouble>(); bin<double,cdouble>(); bin<cdouble,double>(); inp<double,double>(); inp<cdouble,cdouble>(); inp<cdouble,double>(); own<double>(); own<cdouble>();
  for(auto&d:SH()){ un(rnd_n<double>(d)); un(rnd_n<cdouble>(d)); N<double> h(d); for(auto&x:h.v) x=rint(-400,400)/128.0; un(h); N<cdouble> z(d); for(auto&x:z.v) x=cdouble(rint(-400,400)/128.0,rint(-400,400)/128.0); un(z);
    { const N<double>&a=h; Tensor<double> t=lib(a); std::string D=str(a); U(double,double,"round",round(t),std::round(x)) }
    N<double> b=rnd_n<double>(d); run("to_complex(re,im)",str(h)+str(b),[&]{ N<cdouble> w(d); for(size_t i=0;i<w.v.size();i++) w.v[i]=cdouble(h.v[i],b.v[i]); same("to_complex(re,im)",str(h)+str(b),to_complex(lib(h),lib(b)),w); });
    must_abort("to_complex mismatch",str(d),[&]{ Dims e=d; e[0]+=1+(prod(d)==0); for(auto&q:e) if(!q) q=1; to_complex(lib(h),lib(rnd_n<double>(e))); }); }
  // values of very different magnitude: the operation is applied to each element, not a rearrangement that overflows
  { double m[]={1e-300,1e-200,1e-100,1.0,3.0,1e100,1e200,1e300}; N<double> a({64}),b({64}); N<cdouble> z({64}),y({64});
    for(int i=0;i<64;i++){ a.v[i]=m[i/8]; b.v[i]=-m[i%8]; z.v[i]=cdouble(m[i/8],m[i%8]); y.v[i]=cdouble(m[i%8],-m[(i*3+1)%8]); }
    RT A=lib(a),B=lib(b); CT Z=lib(z),Y=lib(y); std::string D="values of magnitude 1e-300..1e300";
#define W(nm,T,e,o) run(nm,D,[&]{ N<T> w({64}); for(int i=0;i<64;i++) w.v[i]=o; same(nm " (wide range)",D,e,w,0); });
    W("R+R",double,A+B,a.v[i]+b.v[i]) W("R-R",double,A-B,a.v[i]-b.v[i]) W("R*R",double,A*B,a.v[i]*b.v[i]) W("R/R",double,A/B,a.v[i]/b.v[i])
    W("abs",double,abs(B),std::abs(b.v[i])) 
    for(int q=0;q<8;q++){ double s=m[q]; cdouble t(m[q],-m[(q+3)%8]); W("R/s",double,A/s,a.v[i]/s) W("s/R",double,s/A,s/a.v[i]) W("R*s",double,A*s,a.v[i]*s) W("Z*s",cdouble,Z*cdouble(s),z.v[i]*cdouble(s)) 
     W("Z/t",cdouble,Z/t,z.v[i]/t) W("t/Z",cdouble,t/Z,t/z.v[i]) W("t*Z",cdouble,t*Z,t*z.v[i]) W("Z/s",cdouble,Z/cdouble(s),z.v[i]/cdouble(s)) }
    W("Z*Y",cdouble,Z*Y,z.v[i]*y.v[i]) W("Z/Y",cdouble,Z/Y,z.v[i]/y.v[i]) W("Z+Y",cdouble,Z+Y,z.v[i]+y.v[i])
    run("abs z",D,[&]{ N<double> w({64}); for(int i=0;i<64;i++) w.v[i]=std::abs(z.v[i]); same("abs z",D,abs(Z),w,1e-14); });
    N<double> h({41}); for(int i=0;i<41;i++) h.v[i]=(i-20)*0.5; run("round halves",D,[&]{ N<double> w({41}); for(int i=0;i<41;i++) w.v[i]=std::round(h.v[i]); same("round halves",str(h),round(lib(h)),w); });
  }
  return finish(); }
