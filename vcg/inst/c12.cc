// Entry points for the contracts of C12.
#include <tensor/tensor.h>
using namespace tensor;
typedef Tensor<double> RT; typedef Tensor<cdouble> CT;
#define S extern "C"
S RT scale_d(const RT&t,int n,const RT&v){ return scale(t,n,v); }
S CT scale_z(const CT&t,int n,const CT&v){ return scale(t,n,v); }
S CT scale_zd(const CT&t,int n,const RT&v){ return scale(t,n,v); }
S void inp_d(RT&t,int n,const RT&v){ scale_inplace(t,n,v); }
S void inp_z(CT&t,int n,const CT&v){ scale_inplace(t,n,v); }
S void inp_zd(CT&t,int n,const RT&v){ scale_inplace(t,n,v); }
