// Entry points for the contracts of C13.
#include <tensor/tensor.h>
using namespace tensor;
typedef Tensor<double> RT; typedef Tensor<cdouble> CT;
#define S extern "C"
S RT trace_d(const RT&t,long i,long j){ return trace(t,i,j); }
S CT trace_z(const CT&t,long i,long j){ return trace(t,i,j); }
S double tr_d(const RT&t){ return trace(t); }
S void tr_z(const CT&t,cdouble*o){ *o=trace(t); }
S RT take_d(const RT&t,int w,int i,int j){ return take_diag(t,w,i,j); }
S CT take_z(const CT&t,int w,int i,int j){ return take_diag(t,w,i,j); }
S RT diag_d(const RT&a,int w,int r,int c){ return diag(a,w,r,c); }
S CT diag_z(const CT&a,int w,int r,int c){ return diag(a,w,r,c); }
S RT diag1_d(const RT&a,int w){ return diag(a,w); }
S CT diag1_z(const CT&a,int w){ return diag(a,w); }
