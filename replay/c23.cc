#include "h.h"
#include <tensor/jobs.h>
#include <fstream>
#include <cstring>
using jobs::Job; typedef std::vector<std::string> Args;
struct V { std::string name; double a,b; long n; int form; };     // form 2: name,min  3: name,min,max  4: name,min,max,n
static std::string text(const V&v,const char*sep){ std::ostringstream o; o.precision(17); o<<v.name<<sep<<v.a; if(v.form>2) o<<sep<<v.b; if(v.form>3) o<<sep<<v.n; return o.str(); }
static double val(const V&v,long k){ return v.n<2?v.a:v.a+(v.b-v.a)*k/(v.n-1); }
static std::string str(const Args&a){ std::string s; for(auto&x:a) s+=x+" "; return s; }
static Job make(const Args&a){ std::vector<const char*> p; for(auto&x:a) p.push_back(x.c_str()); return Job((int)p.size(),p.data()); }
static long total(const std::vector<V>&vs){ long n=1; for(auto&v:vs) n*=v.n; return n; }
static void combo(const Job&j,const std::vector<V>&vs,long n,const std::string&D){ for(auto&v:vs){ long k=n%v.n; n/=v.n; double w=val(v,k),g=j.get_value(v.name); check(near(g,w,1e-12),"value of a variable in its mixed-radix position",D+" variable "+v.name+": "+str(g)+" instead of "+str(w)); } }
static void walk(const Args&a,const std::vector<V>&vs,long first,long last,std::vector<int>*hits=0){ std::string D=str(a); run("walk over jobs",D,[&]{ Job j=make(a); long N=total(vs); check((long)j.number_of_jobs()==N,"number of jobs is the product of the sample counts",D+" gives "+str((long)j.number_of_jobs())); long n=first; 
   for(;j.to_do();++j,n++){ check(n<=last&&(long)j.current_job()==n,"jobs run in order over the interval",D+" at "+str((long)j.current_job())); combo(j,vs,n,D+" job "+std::to_string(n)); if(hits&&n>=0&&n<N) (*hits)[n]++; if(n>N+2) break; } check(n==last+1,"every job of the interval is run",D+" stops at "+str(n)); check(j.get_value_with_default("not there",-2.5)==-2.5,"default of a missing variable",D); for(auto&v:vs) if(N>0) (void)j.get_value_with_default(v.name,0); }); }
static Args vars(const std::vector<V>&vs){ Args a={"prog"}; for(auto&v:vs){ a.push_back("--variable"); const char*sp[]={","," ",";","\t",", "," ,; "}; a.push_back(text(v,sp[rnd()%6])); } return a; }
static Args with(Args a,const Args&b){ a.insert(a.end(),b.begin(),b.end()); return a; }
static std::string S_(long x){ return std::to_string(x); }
static void all(const std::vector<V>&vs){ Args a=vars(vs); long N=total(vs); walk(a,vs,0,N-1);
  std::set<std::string> seen; for(long n=0;n<std::min(N,60L);n++){ walk(with(a,{"--this-job",S_(n)}),vs,n,n); Job j=make(with(a,{"--this-job",S_(n)})); std::string s; for(auto&v:vs) s+=str(j.get_value(v.name))+";"; bool distinct=true; for(auto&v:vs) if(v.n>1&&v.a==v.b) distinct=false; if(distinct) check(seen.insert(s).second,"distinct jobs select distinct combinations",str(a)+" job "+S_(n)); }
  walk(with(a,{"--this-job",S_(N)}),vs,N,N-1); walk(with(a,{"--this-job",S_(N+3)}),vs,N+3,N+2);
  for(long b=1;b<=N+2&&b<=14;b++){ std::vector<int> hits(N,0); long d=(N+b-1)/b; for(long c=0;c<b;c++){ long f=std::min(c*d,N),l=std::min(N-1,f+d-1); Args x=(c+b)%2?with(a,{"--this-job",S_(c),"--job-blocks",S_(b)}):with({"p","--job-blocks",S_(b),"--this-job",S_(c)},Args(a.begin()+1,a.end())); 
     run("block",str(x),[&]{ Job j=make(x); long k=0; for(;j.to_do();++j){ long n=j.current_job(); check(n>=0&&n<N,"job of a block is a job",str(x)); if(n>=0&&n<N) hits[n]++; combo(j,vs,n,str(x)); if(++k>N+2) break; } }); (void)f; (void)l; }
    for(long n=0;n<N;n++) check(hits[n]==1,"every job belongs to exactly one block",str(a)+" in "+S_(b)+" blocks: job "+S_(n)+" runs "+S_(hits[n])+" times"); walk(with(a,{"--job-blocks",S_(b)}),vs,0,std::min(d,N)-1); }
  for(long f=0;f<std::min(N,9L);f++){ walk(with(a,{"--first-job",S_(f)}),vs,f,N-1); for(long l=f;l<std::min(N+2,f+5);l++) walk(with(a,{"--first-job",S_(f),"--last-job",S_(l)}),vs,f,std::min(l,N-1)); }
  // the same description in a file
  if(!vs.empty()){ const char*fn="c24jobs.txt"; { std::ofstream o(fn); for(auto&v:vs){ const char*sp[]={","," ",";","\t",", "}; if(rnd()%3==0) o<<(rnd()%2?"\n":"  \t\n"); o<<(rnd()%4?"":"  ")<<text(v,sp[rnd()%5])<<(rnd()%4?"":" ")<<"\n"; } if(rnd()%2) o<<"\n"; } Args x={"prog","--job",fn}; walk(x,vs,0,N-1); if(N>1) walk(with(x,{"--this-job",S_(N-1)}),vs,N-1,N-1); unlink(fn); } }
int main(int c,char**v){ init(c,v); std::vector<V> none; all(none);
  for(long n:{1L,2L,3L,7L,10L}) for(int f:{2,3,4}){ V x{"alpha",0.5,n==1||f==2?0.5:-3.25,f==2?1:f==3?10:n,f}; if(f==4) x.b=7.25; all({x}); }
  all({V{"a",1,1,3,4}}); all({V{"b",1,2,3,4},V{"c",5,5,1,2}});
  int T=thorough?150:35; for(int t=0;t<T;t++){ int m=1+rnd()%4; std::vector<V> vs; long N=1; for(int q=0;q<m;q++){ V x; x.name=std::string(1,"abcdxyz"[q])+(rnd()%2?"_long_name":""); x.n=1+rnd()%5; x.form=4; x.a=rint(-20,20)/4.0; x.b=x.a+rint(1,9); if(rnd()%5==0){ x.form=2; x.n=1; x.b=x.a; } else if(rnd()%9==0&&N<4){ x.form=3; x.n=10; } if(N*x.n>150){ x.n=1; x.form=4; } N*=x.n; vs.push_back(x); } all(vs); }
  run("variable without values","no jobs",[&]{ Job j=make({"p","--variable","a,1,2,3","--variable","b,0,0,0"}); check(j.number_of_jobs()==0&&!j.to_do(),"a variable without values leaves no job","a,1,2,3 b,0,0,0"); });
  { Args big={"p","--variable","x,0,1,2000","--variable","y,0,1,1500","--variable","z,0,1,1700"}; run("more jobs than an int counts","3 variables of 2000, 1500, 1700 values",[&]{ Job j=make(big); check((long)j.number_of_jobs()==5100000000L,"number of jobs is the product of the sample counts","2000*1500*1700 gives "+str((long)j.number_of_jobs())); check(j.to_do()&&j.current_job()==0,"every job of the interval is run","2000*1500*1700"); }); }
  Args a={"p","--variable","a,1,2,3","--variable","b,0,1,2"};
  for(auto&b:std::vector<Args>{{"--first-job","-1"},{"--first-job","6"},{"--first-job","3","--last-job","2"},{"--this-job","1","--first-job","2"},{"--last-job","2"},{"--job-blocks","0"},{"--job-blocks","-2"},{"--job-blocks","2","--first-job","0"},{"--this-job"},{"--first-job"},{"--first-job","0","--last-job"},{"--job-blocks"},{"--variable"},{"--job"},{"--variable","x"},{"--variable",""},{"--variable","x,1,2,3,4"}})
    must_abort("unsuitable options",str(with(a,b)),[&]{ Job j=make(with(a,b)); });
  must_abort("missing variable","get_value",[&]{ Job j=make(a); j.get_value("zz"); });
  { std::ofstream o("bad.txt"); o<<"a,1,2,3\nb\n"; } must_abort("syntax error in a job file","a,1,2,3 b",[&]{ Job j=make({"p","--job","bad.txt"}); }); unlink("bad.txt");
  return finish(); }
