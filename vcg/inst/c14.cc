// Entry points for the contracts of C14.
#include <tensor/tensor.h>
using namespace tensor;
typedef Tensor<double> RT; typedef Tensor<cdouble> CT;
#define S extern "C"
#define K(T,x) S T kron_##x(const T&a,const T&b){ return kron(a,b); } S T kron2_##x(const T&a,const T&b){ return kron2(a,b); } S T ksum_##x(const T&a,const T&b){ return kron2_sum(a,b); }
K(RT,d) K(CT,z)
