#include "h.h"
#include <random>
#include <tensor/sparse.h>
#include <tensor/rand.h>
// Stand-ins that are found only if the generator keeps its state under other names; forcing is then skipped.
static uint64_t mt[312]; static int mti;
#include "rand/rand64.cc"
namespace tensor { static void force(uint64_t w,int at){ for(int i=0;i<312;i++) mt[i]=w; mti=at; } }
typedef unsigned long ul; using tensor::rand;
static ul untemper(ul y){ auto fix=[](ul y,int k,ul m,bool left){ ul x=y; for(int i=0;i<64;i++) x=y^((left?x<<k:x>>k)&m); return x; };
  y=fix(y,43,~0UL,false); y=fix(y,37,0xFFF7EEE000000000UL,true); y=fix(y,17,0x71D67FFFEDA60000UL,true); return fix(y,29,0x5555555555555555UL,false); }
static std::vector<ul> by_array(const std::vector<ul>&key,int n){ const int NN_=312; std::vector<ul> s(NN_); s[0]=19650218UL; for(int i=1;i<NN_;i++) s[i]=6364136223846793005UL*(s[i-1]^(s[i-1]>>62))+i;
  size_t i=1,j=0; for(size_t k=std::max<size_t>(NN_,key.size());k;k--){ s[i]=(s[i]^((s[i-1]^(s[i-1]>>62))*3935559000370003845UL))+key[j]+j; i++; j++; if(i>=NN_){ s[0]=s[NN_-1]; i=1; } if(j>=key.size()) j=0; }
  for(size_t k=NN_-1;k;k--){ s[i]=(s[i]^((s[i-1]^(s[i-1]>>62))*2862933555777941757UL))-i; i++; if(i>=NN_){ s[0]=s[NN_-1]; i=1; } } s[0]=1UL<<63;
  std::stringstream ss; for(ul x:s) ss<<x<<' '; ss<<312; std::mt19937_64 g; ss>>g; std::vector<ul> out; for(int k=0;k<n;k++) out.push_back(g()); return out; }
static bool in01(double x){ return x>=0&&x<1; }
static void sequence(ul seed,int before,int n){ std::string D="seed "+std::to_string(seed)+" after "+std::to_string(before)+" draws"; run("sequence of a seed",D,[&]{ tensor::set_seed(seed); for(int i=0;i<before;i++) rand<ul>(); tensor::set_seed(seed); std::mt19937_64 g(seed);
   for(int k=0;k<n;k++){ ul x=g(); std::string E=D+", draw "+std::to_string(k); switch(k%7){
     case 0: case 1: check(rand<ul>()==x,"rand<unsigned long>() follows the reference",E); break; case 2: check(rand<long>()==(long)(x>>1),"rand<long>() follows the reference",E); break;
     case 3: check(rand<unsigned int>()==(unsigned)x,"rand<unsigned>() follows the reference",E); break; case 4: check(rand<int>()==(int)(x>>1),"rand<int>() follows the reference",E); break;
     case 5: check(rand<double>()==(double)(x>>11)/9007199254740992.0,"rand<double>() follows the reference",E); break;
     case 6: { float f=rand<float>(); check(f>=0&&f<1&&std::abs(f-(double)x/18446744073709551616.0)<1.2e-7,"rand<float>() follows the reference",E+" gives "+str(f)); } } } }); }
static void words(ul x){ std::string D="output word "+std::to_string(x); ul w=untemper(x); int at=0; auto set=[&]{ tensor::force(w,at=(at+37)%300); };
  set(); if(rand<ul>()!=x) return;      // the state is kept elsewhere
  run("conversions of a word",D,[&]{ set(); double d=rand<double>(); check(in01(d),"rand<double>() in [0,1)",D+" gives "+str(d)); set(); float f=rand<float>(); check(f>=0&&f<1,"rand<float>() in [0,1)",D+" gives "+str(f));
   set(); cdouble z=rand<cdouble>(); check(in01(z.real())&&in01(z.imag()),"rand<cdouble>() in [0,1)",D+" gives "+str(z)); set(); check(rand<long>()==(long)(x>>1),"rand<long>() of a word",D); set(); check(rand<unsigned>()==(unsigned)x,"rand<unsigned>() of a word",D);
   set(); check(rand<int>()==(int)(x>>1),"rand<int>() of a word",D); });
  for(long u:{1L,2L,3L,7L,10L,255L,256L,1000003L,2147483647L,2147483648L,4294967296L,4294967297L,1099511627776L,4611686018427387905L,9223372036854775806L,9223372036854775807L}){ std::string E=D+" bound "+std::to_string(u);
   run("bounded integers",E,[&]{ set(); long r=rand<long>(u); check(r>=0&&r<u,"rand<long>(upper) in [0, upper)",E+" gives "+str(r)); set(); ul q=rand<ul>((ul)u); check(q<(ul)u,"rand<unsigned long>(upper) in [0, upper)",E+" gives "+str(q));
    if(u<=2147483647L){ set(); int i=rand<int>((int)u); check(i>=0&&i<u,"rand<int>(upper) in [0, upper)",E+" gives "+str(i)); set(); double d=rand<double>((double)u); check(d>=0&&d<u,"rand<double>(upper) in [0, upper)",E+" gives "+str(d));
     for(int lo:{-5,0,3,-2147483647-1}){ int hi=(int)std::min<long>((long)lo+u,2147483647L); if((long)hi-lo>2147483647L) continue; if(hi<=lo) continue; set(); int r2=rand<int>(lo,hi); check(r2>=lo&&r2<hi,"rand<int>(lower, upper) in [lower, upper)",E+" from "+str(lo)+" to "+str(hi)+" gives "+str(r2)); } }
    for(long lo:{-9L,0L,4L,-9223372036854775807L-1}){ if(lo>0&&u>9223372036854775807L-lo) continue; set(); long r2=rand<long>(lo,lo+u); check(r2>=lo&&r2<lo+u,"rand<long>(lower, upper) in [lower, upper)",E+" from "+str(lo)+" gives "+str(r2)); }
    for(ul lo:{0UL,5UL,9000000000000000000UL}){ set(); ul r2=rand<ul>(lo,lo+(ul)u); check(r2>=lo&&r2<lo+(ul)u,"rand<unsigned long>(lower, upper) in [lower, upper)",E+" from "+str(lo)+" gives "+str(r2)); } }); }
  run("zero bound",D,[&]{ set(); check(rand<long>(0L)==0&&rand<int>(0)==0&&rand<ul>(0UL)==0,"upper = 0 gives 0",D); });
  run("tensors of a word",D,[&]{ set(); RT t=RT::random(2,3); for(long i=0;i<6;i++) check(in01(t[i]),"random tensor in [0,1)",D+" gives "+str(t[i])); set(); CT c=CT::random(4); for(long i=0;i<4;i++) check(in01(c[i].real())&&in01(c[i].imag()),"random complex tensor in [0,1)",D); });
  for(double den:{1.0,0.5,0.2,0.01}) run("sparse of a word",D+" density "+str(den),[&]{ set(); RT s=full(RSparse::random(3,2,den)); for(long i=0;i<6;i++) check(s[i]>=0&&s[i]<=1,"random sparse matrix in [0,1]",D+" density "+str(den)+" gives "+str(s[i]));
    set(); CT z=full(CSparse::random(2,3,den)); for(long i=0;i<6;i++) check(std::abs(z[i])<=1+1e-15&&z[i].real()>=0&&z[i].imag()>=0,"random complex sparse matrix in the unit disc",D+" gives "+str(z[i])); }); }
template<class E> bool ok01(E x); template<> bool ok01(double x){ return in01(x); } template<> bool ok01(cdouble x){ return in01(x.real())&&in01(x.imag()); }
template<class E> void tensors(const Dims&d){ typedef Tensor<E> T; std::string D=TN<E>()+str(d); ul seed=rnd();
  auto good=[&](const std::string&w,const T&t,const Dims&e){ check(dimsof(t.dimensions())==e&&t.size()==prod(e),"shape of "+w,D); for(long i=0;i<(long)t.size();i++) check(ok01<E>(t[i]),"elements of "+w+" in [0,1)",D); long n=t.size(),rep=0; for(long i=1;i<n;i++) if(t[i]==t[i-1]) rep++; check(rep==0,"every element of "+w+" is drawn",D); };
  run("random tensors",D,[&]{ tensor::set_seed(seed); T a=T::random(ind(d)); tensor::set_seed(seed); T b=T::random(ind(d)); good("random(dimensions)",a,d); check(plain(a).v==plain(b).v,"the same seed gives the same tensor",D);
   T z=T(ind(d)); z.fill_with_zeros(); T cp(z); z.randomize(); good("randomize()",z,d); for(long i=0;i<(long)cp.size();i++) check(cp[i]==0.0,"randomize() leaves copies alone",D); });
  run("random factories",D,[&]{ switch(d.size()){ case 1: good("random(n)",T::random(d[0]),d); break; case 2: good("random(n,m)",T::random(d[0],d[1]),d); break; case 3: good("random(3 sizes)",T::random(d[0],d[1],d[2]),d); break; case 4: good("random(4 sizes)",T::random(d[0],d[1],d[2],d[3]),d); break;
     case 5: good("random(5 sizes)",T::random(d[0],d[1],d[2],d[3],d[4]),d); break; case 6: good("random(6 sizes)",T::random(d[0],d[1],d[2],d[3],d[4],d[5]),d); } }); }
int main(int c,char**v){ init(c,v); int n=thorough?5000:1500;
  for(ul s:{0UL,1UL,5489UL,4294967295UL,4294967296UL,9223372036854775808UL,18446744073709551615UL,(ul)rnd()*2047UL+rnd()}) for(int b:{0,1,100,156,311,312,313,624,700}) sequence(s,b,n);
  for(int len:{1,2,3,5,100,155,156,311,312,313,400,700}){ std::vector<ul> key; for(int i=0;i<len;i++) key.push_back((ul)rnd()*4097UL+rnd()); std::string D="key of "+std::to_string(len)+" words"; run("array seed",D,[&]{ std::vector<ul> k2(key); tensor::init_by_array(k2.data(),len); check(k2==key,"key is not changed",D); std::vector<ul> w=by_array(key,700); for(int k=0;k<700;k++) check(tensor::genrand_int64()==w[k],"array seed follows the reference",D+", draw "+std::to_string(k)); }); }
  std::vector<ul> xs={0,1,2047,2048,~0UL,~0UL-1,1UL<<63,(1UL<<63)-1,(1UL<<63)+1,~0UL<<11,~0UL<<12,~0UL<<40,(~0UL<<40)-1,~0UL<<39,0xFFFFFF8000000000UL,0xFFFFFF7FFFFFFFFFUL,0xFFFFFFFFUL,0x100000000UL,0x80000000UL,0x7FFFFFFFUL,0xFFFFFFFF00000000UL};
  for(int i=0;i<(thorough?400:40);i++) xs.push_back((ul)rnd()*8191UL+rnd()); for(ul x:xs) words(x);
  for(auto&d:shapes(4,0,3,40)){ tensors<double>(d); tensors<cdouble>(d); } for(auto&d:std::vector<Dims>{{400},{2,1,3,2,1},{1,2,3,1,2,2},{17,23}}){ tensors<double>(d); tensors<cdouble>(d); }
  for(const char*s:{"1","0","1234567","-5","2147483647"}){ std::string D=std::string("RANDSEED=")+s; run("seed of the environment",D,[&]{ setenv("RANDSEED",s,1); rand<ul>(); tensor::rand_reseed(); std::mt19937_64 g((ul)(long)atoi(s)); for(int k=0;k<700;k++) check(rand<ul>()==g(),"RANDSEED sets the sequence",D+", draw "+std::to_string(k)); }); }
  unsetenv("RANDSEED"); run("fresh seeds","rand_reseed() twice",[&]{ tensor::rand_reseed(); ul a=rand<ul>(); tensor::rand_reseed(); ul b=rand<ul>(); check(a!=b,"seeds from the system differ","two calls"); });
  return finish(); }
