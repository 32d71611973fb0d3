// Entry points for the contracts of C03.
#include <tensor/tensor.h>
using namespace tensor;
typedef Tensor<double> RT; typedef Tensor<cdouble> CT;
#define S extern "C"
#define I1 tensor::index a
#define I2 I1,tensor::index b
#define I3 I2,tensor::index c
#define I4 I3,tensor::index d
#define I5 I4,tensor::index e
#define I6 I5,tensor::index f
#define A1 a
#define A2 a,b
#define A3 a,b,c
#define A4 a,b,c,d
#define A5 a,b,c,d,e
#define A6 a,b,c,d,e,f
#define G(n) S double get##n##_d(const RT&t,I##n){ return t(A##n); } S void get##n##_z(cdouble&o,const CT&t,I##n){ o=t(A##n); } S void set##n##_d(RT&t,I##n,double v){ t.at(A##n)=v; } S void set##n##_z(CT&t,I##n,const cdouble&v){ t.at(A##n)=v; }
G(1) G(2) G(3) G(4) G(5) G(6)
#define D(T,x) S tensor::index rank_##x(const T&t){ return t.rank(); } S tensor::index size_##x(const T&t){ return t.size(); } S tensor::index rows_##x(const T&t){ return t.rows(); } S tensor::index cols_##x(const T&t){ return t.columns(); } S tensor::index dim_##x(const T&t,int i){ return t.dimension(i); } \
 S void gd1_##x(const T&t,tensor::index*o){ t.get_dimensions(o); } S void gd2_##x(const T&t,tensor::index*o){ t.get_dimensions(o,o+1); } S void gd3_##x(const T&t,tensor::index*o){ t.get_dimensions(o,o+1,o+2); } S void gd4_##x(const T&t,tensor::index*o){ t.get_dimensions(o,o+1,o+2,o+3); } \
 S void gd5_##x(const T&t,tensor::index*o){ t.get_dimensions(o,o+1,o+2,o+3,o+4); } S void gd6_##x(const T&t,tensor::index*o){ t.get_dimensions(o,o+1,o+2,o+3,o+4,o+5); }
D(RT,d) D(CT,z)
S double flat_d(const RT&t,tensor::index i){ return t[i]; } S void flat_z(cdouble&o,const CT&t,tensor::index i){ o=t[i]; }
S void seq_d(RT&t,tensor::index i,double v){ t.at_seq(i)=v; } S void seq_z(CT&t,tensor::index i,const cdouble&v){ t.at_seq(i)=v; }
