#include "h.h"
#include <tensor/sdf.h>
#include <fstream>
#include <sys/wait.h>
#include <sys/stat.h>
using namespace sdf; typedef std::vector<RT> RV; typedef std::vector<CT> CV;
static long files=0; static std::string newname(){ return "f"+std::to_string(files++)+".dat"; }
static std::string slurp(const std::string&f){ std::ifstream s(f.c_str(),std::ios::binary); std::ostringstream o; o<<s.rdbuf(); return o.str(); }
static void spit(const std::string&f,const std::string&d){ std::ofstream s(f.c_str(),std::ios::binary); s.write(d.data(),d.size()); }
static bool there(const std::string&f){ struct stat b; return stat(f.c_str(),&b)==0; }
static double dbl(){ switch(rnd()%8){ case 0: return 0.0; case 1: return -0.0; case 2: return INFINITY; case 3: return 4.9e-324*(1+rnd()%9); case 4: { unsigned long u=0x7ff8000000000000UL|(rnd()&0xffffffff); double d; memcpy(&d,&u,8); return d; } case 5: { unsigned long u=rnd()<<11^rnd(); double d; memcpy(&d,&u,8); return d; } default: return (double)rint(-1000,1000)/8; } }
static void gen(double&x){ x=dbl(); } static void gen(cdouble&x){ double a[2]={dbl(),dbl()}; memcpy((void*)&x,a,16); }
struct Rec { int type; std::string name; double d; cdouble z; int i; size_t u; N<double> r; N<cdouble> c; std::vector<N<double> > rv; std::vector<N<cdouble> > cv; };
template<class E> static N<E> tens(){ Dims d; int r=1+rnd()%4; if(rnd()%12==0) r=5+rnd()%4; for(int i=0;i<r;i++) d.push_back(rint(rnd()%6?1:0,r>4?2:4)); N<E> a(d); for(auto&x:a.v) gen(x); return a; }
static std::string name(){ static const int L[]={0,0,1,2,5,8,30,61,62,63,64,65,100,200}; int n=L[rnd()%14]; std::string s; for(int i=0;i<n;i++) s+=(char)(rnd()%5?'a'+rnd()%26:1+rnd()%255); return s; }
static Rec rec(int t){ Rec x; x.type=t; x.name=name(); x.d=dbl(); gen(x.z); x.i=rnd()%3?(int)rnd():rnd()%2?INT_MIN:INT_MAX; x.u=rnd()%3?rnd()%(1UL<<53):rnd()%2?1UL<<53:rnd()%1000; if(t==4) x.r=tens<double>(); if(t==5) x.c=tens<cdouble>(); int n=rnd()%4; if(t==6) for(int i=0;i<n;i++) x.rv.push_back(tens<double>()); if(t==7) for(int i=0;i<n;i++) x.cv.push_back(tens<cdouble>()); return x; }
static const char *TY[]={"double","cdouble","int","size_t","RTensor","CTensor","vector<RTensor>","vector<CTensor>"};
static std::string str(const Rec&x){ std::string s=TY[x.type]; s+=" \""; for(unsigned char c:x.name) s+=(c>=32&&c<127)?(char)c:'?'; s+="\" (name of "+std::to_string(x.name.size())+") "; std::ostringstream o; o.precision(17); switch(x.type){ case 0: o<<x.d; break; case 1: o<<x.z; break; case 2: o<<x.i; break; case 3: o<<x.u; break; case 4: o<<str(x.r.d); break; case 5: o<<str(x.c.d); break; case 6: for(auto&t:x.rv) o<<str(t.d); break; default: for(auto&t:x.cv) o<<str(t.d); } return s+o.str(); }
static std::string str(const std::vector<Rec>&v){ std::string s; for(auto&x:v) s+="["+str(x)+"] "; return s; }
template<class E> static Tensor<E> mk(const N<E>&a){ Tensor<E> t(ind(a.d)); if(a.v.size()) memcpy((void*)t.begin(),(void*)a.v.data(),a.v.size()*sizeof(E)); return t; }
static void put(OutDataFile&f,const Rec&x){ switch(x.type){ case 0: f.dump(x.d,x.name); break; case 1: f.dump(x.z,x.name); break; case 2: f.dump(x.i,x.name); break; case 3: f.dump(x.u,x.name); break; case 4: f.dump(mk(x.r),x.name); break; case 5: f.dump(mk(x.c),x.name); break; case 6: { RV v; for(auto&t:x.rv) v.push_back(mk(t)); f.dump(v,x.name); break; } default: { CV v; for(auto&t:x.cv) v.push_back(mk(t)); f.dump(v,x.name); } } }
template<class E> static bool bits(const Tensor<E>&t,const N<E>&a){ if(dimsof(t.dimensions())!=a.d||(long)t.size()!=(long)a.v.size()) return false; const Tensor<E> c(t); return !a.v.size()||!memcmp((void*)c.begin_const(),(void*)a.v.data(),a.v.size()*sizeof(E)); }
// loads one record; the variable already holds something else
static bool get(InDataFile&f,const Rec&x,const std::string&nm){ switch(x.type){ case 0: { double d=7; f.load(&d,nm); return !memcmp(&d,&x.d,8); } case 1: { cdouble z(7,7); f.load(&z,nm); return !memcmp(&z,&x.z,16); } case 2: { int i=7; f.load(&i,nm); return i==x.i; } case 3: { size_t u=7; f.load(&u,nm); return u==x.u; }
 case 4: { RT t(rnd()%3+1); RT cp(t); f.load(&t,nm); return bits(t,x.r); } case 5: { CT t(2,2); f.load(&t,nm); return bits(t,x.c); }
 case 6: { RV v(rnd()%4); f.load(&v,nm); if(v.size()!=x.rv.size()) return false; for(size_t i=0;i<v.size();i++) if(!bits(v[i],x.rv[i])) return false; return true; } default: { CV v(rnd()%4); f.load(&v,nm); if(v.size()!=x.cv.size()) return false; for(size_t i=0;i<v.size();i++) if(!bits(v[i],x.cv[i])) return false; return true; } } }
static const int FL[]={DataFile::SDF_OVERWRITE,DataFile::SDF_SHARED,DataFile::SDF_PARANOID}; static const char *FN[]={"overwrite","shared","paranoid"};
static void back(const std::string&f,const std::vector<Rec>&v,const std::string&D){ run("load",D,[&]{ InDataFile in(f); for(size_t k=0;k<v.size();k++){ bool named=rnd()%3; check(get(in,v[k],named?v[k].name:""),"loaded record",D+" record "+std::to_string(k)+(named?" by name":" without name")); } if(rnd()%2) in.close(); }); }
static int kind(const Rec&x){ return x.type==0||x.type==2||x.type==3||x.type==4?0:x.type==1||x.type==5?1:x.type-4; }
static void bad(const std::string&f,const std::vector<Rec>&v,const std::string&D){
 { std::string g=newname(); spit(g,slurp(f)); for(int named=0;named<2;named++) for(int t=0;t<8;t+=1+rnd()%3){ std::string h=newname(); spit(h,slurp(f)); Rec x=rec(t); if(!named) x.name=""; else if(x.name.empty()) x.name="q"; must_abort("record beyond the last one",D+" then "+str(x),[&]{ InDataFile in(h); for(auto&y:v) get(in,y,y.name); get(in,x,x.name); }); unlink(h.c_str()); unlink((h+".lck").c_str()); } unlink(g.c_str()); }
 if(v.empty()) return; size_t k=rnd()%v.size();
 { std::string h=newname(); spit(h,slurp(f)); std::string o=v[k].name.substr(0,63); switch(rnd()%4){ case 0: o+="x"; if(o.size()>63) o="y"; break; case 1: if(o.size()>1) o=o.substr(0,o.size()-1); else o="another"; break; case 2: if(o.size()) o[o.size()-1]=o[o.size()-1]=='a'?'b':'a'; else o="z"; break; default: if(o.size()) o[0]=o[0]=='A'?'B':'A'; else o="z"; } must_abort("record of another name",D+" record "+std::to_string(k)+" as a name of "+std::to_string(o.size()),[&]{ InDataFile in(h); for(size_t q=0;q<k;q++) get(in,v[q],v[q].name); get(in,v[k],o); }); unlink(h.c_str()); unlink((h+".lck").c_str()); }
 { std::string h=newname(); spit(h,slurp(f)); Rec x=rec(rnd()%8); if(kind(x)!=kind(v[k])) must_abort("record of another type",D+" record "+std::to_string(k)+" as "+TY[x.type],[&]{ InDataFile in(h); for(size_t q=0;q<k;q++) get(in,v[q],v[q].name); get(in,x,rnd()%2?v[k].name:""); }); unlink(h.c_str()); unlink((h+".lck").c_str()); }
 // a file cut short
 { std::string all=slurp(f); for(int t=0;t<3;t++){ std::string h=newname(); size_t cut=t?rnd()%all.size():all.size()-1; spit(h,all.substr(0,cut)); bool some=false; must_abort("file cut short",D+" cut to "+std::to_string(cut)+" of "+std::to_string(all.size()),[&]{ InDataFile in(h); for(auto&y:v) get(in,y,y.name); }); unlink(h.c_str()); unlink((h+".lck").c_str()); } } }
static void scalar_of_many(){ for(int z=0;z<2;z++){ std::string h=newname(); must_abort("several numbers where one is expected",z?"cdouble":"double",[&]{ { OutDataFile o(h); if(z) o.dump(CT(2)); else o.dump(RT(2)); } InDataFile in(h); double d; cdouble c; if(z) in.load(&c); else in.load(&d); }); unlink(h.c_str()); } }
static std::vector<Rec> recs(int n){ std::vector<Rec> v; for(int i=0;i<n;i++) v.push_back(rec(rnd()%8)); return v; }
static void cycle(int fl,int n){ std::string f=newname(); std::vector<Rec> v=recs(n),before; std::string D=std::string(FN[fl])+" "+str(v); bool old=rnd()%2; std::string was;
 if(old){ before=recs(1+rnd()%2); run("dump",D,[&]{ OutDataFile o(f,DataFile::SDF_OVERWRITE); for(auto&x:before) put(o,x); }); was=slurp(f); D="after "+str(before)+" "+D; }
 int how=rnd()%3;   // destroyed, closed, closed and used twice
 run("dump",D,[&]{ OutDataFile *o=new OutDataFile(f,FL[fl]); for(auto&x:v){ put(o[0],x); if(FL[fl]==DataFile::SDF_PARANOID) check(old?there(f)&&slurp(f)==was:!there(f),"final file untouched before the writer closes",D); } if(FL[fl]==DataFile::SDF_PARANOID) check(old?there(f)&&slurp(f)==was:!there(f),"final file untouched before the writer closes",D); if(how) { o->close(); check(there(f)&&!there(f+".tmp"),"file visible once closed",D); } if(how==2) o->close(); delete o; check(there(f),"file visible after the writer is gone",D); check(!there(f+".tmp"),"no temporary file left",D); });
 std::vector<Rec> all=v; if(FL[fl]==DataFile::SDF_SHARED){ all=before; all.insert(all.end(),v.begin(),v.end()); } back(f,all,D); if(rnd()%3==0) back(f,all,D); bad(f,all,D);
 // a second writer appends
 if(rnd()%2){ std::vector<Rec> w=recs(1+rnd()%2); run("append",D,[&]{ OutDataFile o(f); for(auto&x:w) put(o,x); }); all.insert(all.end(),w.begin(),w.end()); back(f,all,D+" then "+str(w)); }
 unlink(f.c_str()); unlink((f+".lck").c_str()); }
// a writer that dies before closing leaves the final file as it was
static void crash(int n){ std::string f=newname(); std::vector<Rec> v=recs(n),before=recs(2); bool old=rnd()%2; std::string was; std::string D="writer dies after "+str(v); run("crash",D,[&]{ if(old){ { OutDataFile o(f,DataFile::SDF_OVERWRITE); for(auto&x:before) put(o,x); } was=slurp(f); } fflush(stdout); pid_t p=fork(); if(!p){ OutDataFile *o=new OutDataFile(f,DataFile::SDF_PARANOID); for(auto&x:v) put(*o,x); _exit(0); } int s; waitpid(p,&s,0); check(WIFEXITED(s)&&WEXITSTATUS(s)==0,"dying writer",D); check(old?there(f)&&slurp(f)==was:!there(f),"an unfinished file is not visible",D); if(old) { InDataFile in(f); for(auto&x:before) check(get(in,x,x.name),"loaded record",D); }
  { OutDataFile o(f,DataFile::SDF_PARANOID); for(auto&x:v) put(o,x); } }); back(f,v,D+" and a later writer"); unlink(f.c_str()); unlink((f+".lck").c_str()); unlink((f+".tmp").c_str()); }
// a file that grows over several writers to a few megabytes
template<class T> static void grows(long n,int writers){ std::string f=newname(),D="several writers of "+std::to_string(n)+" elements each"; std::vector<T> w;
 run("append",D,[&]{ for(int i=0;i<writers;i++){ T t(n+i); for(long k=0;k<t.size();k++) gen(t.at(k)); w.push_back(t); OutDataFile o(f); o.dump(t,"v"+std::to_string(i)); }
  pid_t p=fork(); if(!p){ int bad=0; { InDataFile in(f); for(int i=0;i<writers;i++){ T t; in.load(&t,"v"+std::to_string(i)); if(t.size()!=w[i].size()||memcmp(t.begin_const(),w[i].begin_const(),t.size()*sizeof(*t.begin_const()))) bad=1; } } _exit(bad); }
  int st; waitpid(p,&st,0); check(WIFEXITED(st)&&WEXITSTATUS(st)==0,"records of several writers",D); }); unlink(f.c_str()); }
int main(int c,char**v){ init(c,v); if(!freopen("/dev/null","w",stderr)) return 2;
  for(int t=0;t<8;t++) for(int fl=0;fl<3;fl++) for(int q=0;q<6;q++){ std::string f=newname(); std::vector<Rec> x(1,rec(t)); run("dump",str(x),[&]{ OutDataFile o(f,FL[fl]); put(o,x[0]); }); back(f,x,str(x)); back(f,x,str(x)); bad(f,x,str(x)); unlink(f.c_str()); unlink((f+".lck").c_str()); }
  for(int t=0;t<(thorough?1500:150);t++) for(int fl=0;fl<3;fl++) cycle(fl,rnd()%5); for(int t=0;t<(thorough?150:30);t++) crash(rnd()%4); scalar_of_many();
  for(long n:{100L,600L,3000L,9000L,40000L,140000L}){ grows<RTensor>(n,n>50000?3:4); grows<CTensor>(n/2,3); }
  must_abort("a file that cannot be created","",[&]{ OutDataFile o("missing/dir.dat",DataFile::SDF_OVERWRITE); o.dump(1.0,"x"); }); must_abort("a file that does not exist","",[&]{ InDataFile i("missing.dat"); double d; i.load(&d); }); must_abort("not a data file","",[&]{ spit("junk",std::string(200,(char)0)); InDataFile i("junk"); });
  return finish(); }
