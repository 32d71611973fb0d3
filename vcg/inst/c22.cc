// Entry points for the contracts of C22
#include <new>
#define TENSOR_LOAD_IMPL
#include <tensor/tensor.h>
#include <tensor/sdf.h>
using namespace tensor; using namespace sdf;
#define S extern "C"
typedef const std::string &str;
S void dump_d(OutDataFile *f,const RTensor &t,str n){ f->dump(t,n); }
S void dump_z(OutDataFile *f,const CTensor &t,str n){ f->dump(t,n); }
S void dump_real(OutDataFile *f,double t,str n){ f->dump(t,n); }
S void dump_complex(OutDataFile *f,const cdouble &t,str n){ f->dump(t,n); }
S void dump_int(OutDataFile *f,int t,str n){ f->dump(t,n); }
S void dump_size(OutDataFile *f,size_t t,str n){ f->dump(t,n); }
S void load_d(InDataFile *f,RTensor *t,str n){ f->load(t,n); }
S void load_z(InDataFile *f,CTensor *t,str n){ f->load(t,n); }
S void load_real(InDataFile *f,double *t,str n){ f->load(t,n); }
S void load_complex(InDataFile *f,cdouble *t,str n){ f->load(t,n); }
S void load_int(InDataFile *f,int *t,str n){ f->load(t,n); }
S void load_size(InDataFile *f,size_t *t,str n){ f->load(t,n); }
typedef std::vector<RTensor> RV; typedef std::vector<CTensor> CV;
S void dump_vd(OutDataFile *f,const RV &t,str n){ f->dump(t,n); }
S void dump_vz(OutDataFile *f,const CV &t,str n){ f->dump(t,n); }
S void load_vd(InDataFile *f,RV *t,str n){ f->load(t,n); }
S void load_vz(InDataFile *f,CV *t,str n){ f->load(t,n); }
