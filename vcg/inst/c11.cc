// Entry points for the contracts of C11.
#include <tensor/tensor.h>
using namespace tensor;
typedef Tensor<double> RT; typedef Tensor<cdouble> CT;
#define S extern "C"
#define K(O,A,B,x) S O fold_##x(const A&a,int i,const B&b,int j){ return fold(a,i,b,j); } S O foldc_##x(const A&a,int i,const B&b,int j){ return foldc(a,i,b,j); } S O mmult_##x(const A&a,const B&b){ return mmult(a,b); }
K(RT,RT,RT,d) K(CT,CT,CT,z) K(CT,RT,CT,dz) K(CT,CT,RT,zd)
S RT foldin_d(const RT&a,int i,const RT&b,int j){ return foldin(a,i,b,j); }
S CT foldin_z(const CT&a,int i,const CT&b,int j){ return foldin(a,i,b,j); }
S void finto_d(RT&c,const RT&a,int i,const RT&b,int j){ fold_into(c,a,i,b,j); }
S void fininto_d(RT&c,const RT&a,int i,const RT&b,int j){ foldin_into(c,a,i,b,j); }
S void minto_d(RT&c,const RT&a,const RT&b){ mmult_into(c,a,b); }
