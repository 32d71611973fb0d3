PJ=PRE+"#include <tensor/jobs.h>\n#include <fstream>\n#include <set>\n#include <vector>\nusing jobs::Job;\n"
PS=PRE+"#include <tensor/sdf.h>\n"
PL=PRE+"#include <tensor/linalg.h>\n"
PF=PRE+"#include <tensor/fftw.h>\n"
S('C27-d','C27',[('src/fftw/fftshift.cc','      if (direction == FFTW_BACKWARD) {','      if (direction == FFTW_BACKWARD && (after > 1 || size.size() < 4 || before < size[dim])) {')],
'''CTensor a=CTensor::random(2,4,6,3), b=fftshift(fftshift(a,3,FFTW_FORWARD),3,FFTW_BACKWARD); for(int i=0;i<a.size();i++) CHECK(a[i]==b[i]);
CTensor c=CTensor::random(7), d=fftshift(fftshift(c,0,FFTW_FORWARD),0,FFTW_BACKWARD); for(int i=0;i<7;i++) CHECK(c[i]==d[i]);''',
'shifting back the last dimension, odd, of a tensor of rank four or more','the backward shift does not undo the forward one',PF)
S('C23-e','C23',[('src/tools/jobs.cc','    if (split_string(buffer).size() == 0)\n      continue; // Blank line','    if (buffer.size() == 0)\n      break; // Blank line')],
'''char d[]="/tmp/jobsXXXXXX"; CHECK(mkdtemp(d)); std::string f=std::string(d)+"/j"; { std::ofstream o(f.c_str()); o<<"x 0 1 3\\n\\ny 0 1 4\\n"; }
const char *a[]={"prog","--job",f.c_str()}; Job j(3,a); unlink(f.c_str()); rmdir(d); CHECK(j.number_of_jobs()==12);''',
'a job file with an empty line in the middle','the parameters after the empty line are forgotten',PJ)
S('C23-f','C23',[('src/tools/jobs.cc','    if (data.size() == 3) {\n      nsteps = 10;','    if (data.size() == 3) {\n      nsteps = (max < min)? 1 : 10;')],
'''const char *a[]={"prog","--variable","x,3,1"}; Job j(3,a); CHECK(j.number_of_jobs()==10); const char *b[]={"prog","--variable","x,1,3"}; Job k(3,b); CHECK(k.number_of_jobs()==10);''',
'a decreasing range without a number of samples','only its first value is run',PJ)
S('C20-d','C20',[('src/sparse/sparse_transpose_d.cc','''		   s.priv_data(),
                   s.columns(),
                   s.rows());''','''		   s.priv_data(),
                   s.columns(),
                   s.length()? 0 : s.rows());''')],
'''Indices r(2),c(2); RTensor v(2); r.at(0)=0;r.at(1)=1;c.at(0)=2;c.at(1)=0; v.at(0)=3;v.at(1)=4; RSparse s(r,c,v,4,3); RSparse t=transpose(s); CHECK(t.rows()==3); CHECK(t.columns()==4); CHECK(full(t)(2,0)==3 && full(t)(0,1)==4);
RSparse u(r,c,v,2,3), w=transpose(u); CHECK(w.rows()==3 && w.columns()==2);''',
'a matrix whose last rows have no elements','the transpose is too narrow')
S('C17-d','C17',[('include/tensor/detail/sparse_base.hpp','''    bool operator==(const sparse_triplet &other) const {
      return row == other.row && col == other.col;''','''    bool operator==(const sparse_triplet &other) const {
      return row == other.row && col == other.col && value == other.value;''')],
'''Indices r(4),c(4); RTensor v(4); for(int i=0;i<4;i++){ r.at(i)=i/2; c.at(i)=1; v.at(i)=i+1; } RSparse s(r,c,v,2,3); CHECK(s.length()==2);
for(int i=0;i<4;i++) v.at(i)=5; RSparse t(r,c,v,2,3); CHECK(t.length()==2);''',
'the same position given twice with different values','the matrix holds two elements at one position')
S('C22-f','C22',[('src/sdf/odata_file.cc','OutDataFile::OutDataFile(const std::string &a_filename, int flags) :\n  DataFile(a_filename, flags)\n{\n  bool existed = file_exists(actual_filename());\n  _stream.open(actual_filename().c_str(), std::ofstream::app | std::ofstream::binary);\n  if (!existed) {','OutDataFile::OutDataFile(const std::string &a_filename, int flags) :\n  DataFile(a_filename, flags)\n{\n  bool existed = file_exists(actual_filename());\n  _stream.open(actual_filename().c_str(), std::ofstream::app | std::ofstream::binary);\n  if (!existed || _stream.tellp() > 65536) {')],
'''std::vector<RTensor> w; for(int i=0;i<2;i++){ char n[9]; snprintf(n,9,"v%d",i); RTensor t=RTensor::random(9000); w.push_back(t); sdf::OutDataFile o("f.dat",sdf::DataFile::SDF_SHARED); o.dump(t,n); }
pid_t p=fork(); if(!p){ sdf::InDataFile in("f.dat"); for(int i=0;i<2;i++){ char n[9]; snprintf(n,9,"v%d",i); RTensor t; in.load(&t,n); for(int k=0;k<9000;k++) if(t[k]!=w[i][k]) _exit(1); } _exit(0); }
int st; waitpid(p,&st,0); CHECK(WIFEXITED(st) && WEXITSTATUS(st)==0);''',
'adding to a file that is already longer than 64 kilobytes','a second header is written before the record',PS)
