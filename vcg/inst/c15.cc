// Entry points for the contracts of C15.
#include <tensor/tensor.h>
using namespace tensor;
typedef Tensor<double> RT; typedef Tensor<cdouble> CT;
#define S extern "C"
S RT chd_d(const RT&a,int n,tensor::index s){ return change_dimension(a,n,s); }
S CT chd_z(const CT&a,int n,tensor::index s){ return change_dimension(a,n,s); }
S RT sq_d(const RT&a){ return squeeze(a); }
S CT sq_z(const CT&a){ return squeeze(a); }
S RT fl_d(const RT&a){ return flatten(a); }
S CT fl_z(const CT&a){ return flatten(a); }
S RT rs_d(const RT&a,const Indices&d){ return reshape(a,d); }
S CT rs_z(const CT&a,const Indices&d){ return reshape(a,d); }
#define R(T,x) S T rs1_##x(const T&a,tensor::index p){ return reshape(a,p); } S T rs2_##x(const T&a,tensor::index p,tensor::index q){ return reshape(a,p,q); } S T rs3_##x(const T&a,tensor::index p,tensor::index q,tensor::index r){ return reshape(a,p,q,r); } \
 S T rs4_##x(const T&a,tensor::index p,tensor::index q,tensor::index r,tensor::index s){ return reshape(a,p,q,r,s); } S T rs5_##x(const T&a,tensor::index p,tensor::index q,tensor::index r,tensor::index s,tensor::index t){ return reshape(a,p,q,r,s,t); } S T rs6_##x(const T&a,tensor::index p,tensor::index q,tensor::index r,tensor::index s,tensor::index t,tensor::index u){ return reshape(a,p,q,r,s,t,u); } \
 S void rsm_##x(T&a,const Indices&d){ a.reshape(d); }
R(RT,d) R(CT,z)
namespace tensor { const Indices squeeze_dimensions(const Indices &d); }
S Indices sqd(const Indices&d){ return squeeze_dimensions(d); }
