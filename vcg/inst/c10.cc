// Entry points for the contracts of C10.
#include <tensor/tensor.h>
using namespace tensor;
typedef Tensor<double> RT; typedef Tensor<cdouble> CT;
#define S extern "C"
S RT permute_d(const RT&a,long i,long j){ return permute(a,i,j); } S CT permute_z(const CT&a,long i,long j){ return permute(a,i,j); }
S RT transpose_d(const RT&a){ return transpose(a); } S CT transpose_z(const CT&a){ return transpose(a); }
S RT adjoint_d(const RT&a){ return adjoint(a); } S CT adjoint_z(const CT&a){ return adjoint(a); }
