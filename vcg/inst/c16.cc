// Entry points for the contracts of C16.
#include <tensor/tensor.h>
using namespace tensor;
typedef Tensor<double> RT; typedef Tensor<cdouble> CT;
#define S extern "C"
S double sum_d(const RT&a){ return sum(a); }
S void sum_z(const CT&a,cdouble*o){ *o=sum(a); }
S double mean_d(const RT&a){ return mean(a); }
S void mean_z(const CT&a,cdouble*o){ *o=mean(a); }
S double min_d(const RT&a){ return min(a); }
S double max_d(const RT&a){ return max(a); }
S double norm0_d(const RT&a){ return norm0(a); }
S double norm0_z(const CT&a){ return norm0(a); }
S double norm2_d(const RT&a){ return norm2(a); }
S double norm2_z(const CT&a){ return norm2(a); }
S double scprod_d(const RT&a,const RT&b){ return scprod(a,b); }
S void scprod_z(const CT&a,const CT&b,cdouble*o){ *o=scprod(a,b); }
S double norminf_d(const RT&a){ return matrix_norminf(a); }
S double norminf_z(const CT&a){ return matrix_norminf(a); }
S RT meann_d(const RT&a,int n){ return mean(a,n); }
S CT meann_z(const CT&a,int n){ return mean(a,n); }
