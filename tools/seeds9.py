PS=PRE+"#include <tensor/sdf.h>\n#include <fstream>\n"
S('C22-a','C22',[('src/sdf/odata_file.cc','std::min<size_t>(var_name_size - 1, name.size())','std::min<size_t>(var_name_size - 2, name.size())')],
'''for (size_t n : {1, 40, 62, 63}) { std::string name(n,'q'); { sdf::OutDataFile o("f.dat",sdf::DataFile::SDF_OVERWRITE); o.dump(2.5,name); }
  pid_t p=fork(); if(!p){ sdf::InDataFile in("f.dat"); double x=0; in.load(&x,name); _exit(x==2.5?0:1); } int st; waitpid(p,&st,0); CHECK(WIFEXITED(st) && WEXITSTATUS(st)==0); unlink("f.dat"); }''',
'a record name of 63 characters','the last character of the longest name that fits is lost and the record is not found',PS)
S('C22-b','C22',[('src/sdf/idata_file.cc','''  read_tag(name, TAG_CTENSOR_VECTOR);
  size_t l;
  read_raw(l);
  m->resize(l);''','''  read_tag(name, TAG_CTENSOR_VECTOR);
  size_t l;
  read_raw(l);
  if (m->size() < l)
    m->resize(l); // Reuse the storage of the tensors that are already there''')],
'''std::vector<CTensor> a; for(int i=0;i<3;i++) a.push_back(CTensor::random(2,i+1));
{ sdf::OutDataFile o("f.dat",sdf::DataFile::SDF_OVERWRITE); o.dump(a,"a"); }
for (size_t n=0;n<6;n++) { std::vector<CTensor> b(n, CTensor::zeros(2,2)); sdf::InDataFile in("f.dat"); in.load(&b,"a"); CHECK(b.size()==3); }''',
'loading a sequence into a vector that is longer than it','old tensors are left at the end of the sequence that is loaded',PS)
S('C22-c','C22',[('src/sdf/idata_file.cc','*v = (int)aux;','*v = (int)(float)aux;')],
'''for (int k : {0, -5, 16777215, 16777217, -16777217, 2147483647, 33554433}) { { sdf::OutDataFile o("f.dat",sdf::DataFile::SDF_OVERWRITE); o.dump(k,"k"); } int r=1; { sdf::InDataFile in("f.dat"); in.load(&r,"k"); } unlink("f.dat"); CHECK(r==k); }''',
'an odd integer above 2^24','large integers come back changed',PS)
S('C22-d','C22',[('src/sdf/odata_file.cc','bool existed = file_exists(actual_filename());','bool existed = file_exists(_filename);')],
'''for (int k=1;k<3;k++) { { sdf::OutDataFile o("f.dat",sdf::DataFile::SDF_PARANOID); o.dump(k,"k"); }
  pid_t p=fork(); if(!p){ int r=0; sdf::InDataFile in("f.dat"); in.load(&r,"k"); _exit(r==k?0:1); } int st; waitpid(p,&st,0); CHECK(WIFEXITED(st) && WEXITSTATUS(st)==0); }''',
'writing in paranoid mode over a file that is already there','the file that replaces it has no header',PS)
S('C22-e','C22',[('src/sdf/odata_file.cc','  write_raw(buffer, var_name_size);\n','  write_raw(buffer, var_name_size);\n  _stream.flush();\n  if (name.size() >= var_name_size)\n    close(); // Names that do not fit end the file\n')],
'''std::string name(64,'q'); pid_t p=fork(); if(!p){ { sdf::OutDataFile o("f.dat",sdf::DataFile::SDF_OVERWRITE); o.dump(2.5,name); o.dump(3.5,"b"); } sdf::InDataFile in("f.dat"); double x=0,y=0; in.load(&x,name); in.load(&y,"b"); _exit(x==2.5 && y==3.5?0:1); } int st; waitpid(p,&st,0); CHECK(WIFEXITED(st) && WEXITSTATUS(st)==0);''',
'a record name of 64 or more characters','the file is closed in the middle of the record',PS)
PJ=PRE+"#include <tensor/jobs.h>\n#include <set>\n#include <vector>\nusing jobs::Job;\n"
S('C23-a','C23',[('src/tools/jobs.cc','tensor::index delta = (number_of_jobs_ + blocks - 1) / blocks;','tensor::index delta = std::max<tensor::index>(1, number_of_jobs_ / blocks);')],
'''for (int n=1;n<9;n++) for (int b=1;b<6;b++) { std::set<int> seen; std::string v="x,0,1,"+std::to_string(n), bs=std::to_string(b);
 for (int k=0;k<b;k++) { std::string ks=std::to_string(k); const char *a[]={"prog","--variable",v.c_str(),"--job-blocks",bs.c_str(),"--this-job",ks.c_str()};
  Job j(7,a); for(; j.to_do(); ++j) CHECK(seen.insert(j.current_job()).second); }
 CHECK((int)seen.size()==n); }''',
'a number of jobs that is not a multiple of the number of blocks','the last jobs are in no block',PJ)
S('C23-b','C23',[('src/tools/jobs.cc','  tensor::index n = 1;\n  for (var_list','  int n = 1;\n  for (var_list')],
'''const char *a[]={"prog","--variable","x,0,1,2000","--variable","y,0,1,2000","--variable","z,0,1,2000"}; Job j(7,a); CHECK(j.number_of_jobs()==8000000000L); CHECK(j.to_do());''',
'more than 2^31 combinations','the number of jobs wraps',PJ)
S('C23-c','C23',[('src/tools/jobs.cc','first_job_ = current_job = std::min(current_job * delta, number_of_jobs_);','first_job_ = std::min(current_job * delta, number_of_jobs_);')],
'''std::set<int> seen; for (int k=0;k<3;k++) { std::string ks=std::to_string(k); const char *a[]={"prog","--variable","x,0,1,9","--job-blocks","3","--this-job",ks.c_str()};
  Job j(7,a); for(; j.to_do(); ++j) CHECK(seen.insert(j.current_job()).second); } CHECK(seen.size()==9);''',
'a block other than the first','the run starts at a job that is not in the block, and does nothing',PJ)
S('C23-d','C23',[('src/tools/jobs.cc','''      tensor::index n = it->size();
      it->select(i % n);
      i = i / n;''','''      tensor::index n = it->size();
      if (n > 1) {
        it->select(i % n);
        i = (i - i % n) / std::max<tensor::index>(n, 2);
      } else if (i == 0) {
        it->select(0);
      } else {
        it->select(i % n);
        i = (i > 1)? i - 1 : 0; // There is only one choice
      }''')],
'''const char *a[]={"prog","--variable","x,0,1,2","--variable","c,5","--variable","y,0,3,4"}; Job j(7,a); std::set<std::pair<double,double>> seen; for(; j.to_do(); ++j) CHECK(seen.insert(std::make_pair(j.get_value("x"),j.get_value("y"))).second); CHECK(seen.size()==8);''',
'a variable with one value before another one with several','some combinations are visited twice and others never',PJ)
PB=PRE+'''#include <tensor/linalg.h>
static int ok(const RTensor &A) { RTensor U,V; for (int e=0;e<2;e++) { RTensor s=linalg::block_svd(A,&U,&V,e); long r=A.rows(),c=A.columns(),k=s.size(); if (k!=std::min(r,c)) return 0;
 for (long i=0;i+1<k;i++) if (!(s[i]>=s[i+1])) return 0;
 double n=0,m=0; for (long i=0;i<r;i++) for (long j=0;j<c;j++) { double x=0; for (long l=0;l<k;l++) x+=U(i,l)*s[l]*V(l,j); n=std::max(n,std::abs(x-A(i,j))); m=std::max(m,std::abs(A(i,j))); } if (!(n<=1e-10*m)) return 0; } return 1; }
static RTensor mat(int r,int c,std::initializer_list<double> v) { RTensor A(r,c); auto it=v.begin(); for (int i=0;i<r;i++) for (int j=0;j<c;j++) A.at(i,j)=*it++; return A; }
'''
S('C26-a','C26',[('src/linalg/find_blocks.hpp','replace_integer(col, col_block, curr_block, new_block);','replace_integer(col - 1, col_block, curr_block, new_block);')],
'''CHECK(ok(mat(3,5,{1,0,2,0,0, 0,1,3,0,0, 0,0,0,1,4}))); CHECK(ok(mat(4,5,{1,0,0,2,0, 0,1,0,3,0, 0,0,5,0,0, 0,0,0,0,7}))); CHECK(ok(mat(4,4,{1,0,2,0, 3,0,0,0, 0,4,5,0, 0,0,0,6}))); CHECK(ok(mat(4,4,{0,1,2,0, 3,0,0,0, 0,4,0,0, 5,0,6,7})));
CHECK(ok(mat(4,4,{1,0,0,0, 0,2,5,0, 1,0,3,0, 0,0,0,6}))); CHECK(ok(mat(4,4,{1,0,0,0, 1,0,5,0, 0,2,3,0, 0,0,0,6})));''',
'a column that joins the block of the column just before it with another','that column is left out of the joined block',PB)
S('C26-b','C26',[('src/linalg/find_blocks.hpp','replace_integer(N, row_block, curr_block, new_block);','replace_integer(row, row_block, curr_block, new_block);')],
'''CHECK(ok(mat(4,4,{0,1,2,0, 3,0,4,0, 0,5,0,0, 0,0,0,6}))); CHECK(ok(mat(5,5,{1,0,2,0,0, 0,1,3,0,0, 4,0,0,0,0, 0,5,0,0,0, 0,0,0,0,6}))); CHECK(ok(mat(5,5,{1,0,0,0,2, 0,0,0,7,0, 0,1,0,0,3, 4,0,5,0,0, 0,6,0,0,0}))); CHECK(ok(mat(5,5,{0,1,2,0,0, 1,0,3,0,0, 0,5,0,0,0, 4,0,0,0,0, 0,0,0,0,6})));''',
'a column that joins two blocks one of which has rows further down','the rows further down keep the number of a block that is gone',PB)
S('C26-c','C26',[('src/linalg/block_svd.hpp','(*pVT).at(sndx,col) = m[0]/aux;','(*pVT).at(sndx,col) = 1.0;')],
'''CHECK(ok(mat(3,3,{0,2,0, 3,0,0, 0,0,1}))); CHECK(ok(mat(3,3,{0,-2,0, 3,0,0, 0,0,1}))); CHECK(ok(mat(3,3,{5,0,0, 0,-1,0, 0,0,2})));''',
'a negative entry that is a block by itself','the sign of the entry is lost',PB)
S('C26-d','C26',[('src/linalg/find_blocks.hpp','bool significant = abs(real(*data)) + abs(imag(*data)) > tol;','bool significant = abs2(*data) > tol;')],
'''CHECK(ok(mat(3,3,{2e-170,0,0, 0,1e-170,0, 0,0,3e-170}))); CHECK(ok(mat(3,3,{1e-162,0,0, 0,4e-170,2e-170, 0,0,3e-170})));''',
'entries below 1e-162','the entries whose square underflows are taken for zeros',PB)
