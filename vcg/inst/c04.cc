// Entry points for the contracts of C04.
#include <tensor/tensor.h>
using namespace tensor;
typedef Tensor<double> RT; typedef Tensor<cdouble> CT; typedef tensor::index ix;
#define S extern "C"
#define I1 ix a
#define I2 I1,ix b
#define I3 I2,ix c
#define I4 I3,ix d
#define I5 I4,ix e
#define I6 I5,ix f
#define A1 a
#define A2 a,b
#define A3 a,b,c
#define A4 a,b,c,d
#define A5 a,b,c,d,e
#define A6 a,b,c,d,e,f
#define SH(T,x,n) S T new##n##_##x(I##n){ return T(A##n); } S T resh##n##_##x(const T&t,I##n){ return reshape(t,A##n); }
#define FA(T,x,n) S T zeros##n##_##x(I##n){ return T::zeros(A##n); } S T ones##n##_##x(I##n){ return T::ones(A##n); }
#define D(T,x,E) SH(T,x,1) SH(T,x,2) SH(T,x,3) SH(T,x,4) SH(T,x,5) SH(T,x,6) FA(T,x,1) FA(T,x,2) FA(T,x,3) FA(T,x,4) FA(T,x,5) FA(T,x,6) \
 S T newI_##x(const Indices&i){ return T(i); } S T newIT_##x(const Indices&i,const T&t){ return T(i,t); } S T newC_##x(const T&t){ return T(t); } S T new0_##x(){ return T(); } S T newV_##x(const Vector<E>&v){ return T(v); } \
 S T zerosI_##x(const Indices&i){ return T::zeros(i); } S T onesI_##x(const Indices&i){ return T::ones(i); } S T eye1_##x(ix n){ return T::eye(n); } S T eye2_##x(ix n,ix m){ return T::eye(n,m); } \
 S T reshI_##x(const T&t,const Indices&i){ return reshape(t,i); } S void memresh_##x(T&t,const Indices&i){ t.reshape(i); } S T flat_##x(const T&t){ return flatten(t); } S void fill0_##x(T&t){ t.fill_with_zeros(); } \
 S void assign_##x(T&a,const T&b){ a=b; } S Vector<E> toV_##x(const T&t){ return t; } S bool empty_##x(const T&t){ return t.is_empty(); }
D(RT,d,double) D(CT,z,cdouble)
S void fill_d(RT&t,double v){ t.fill_with(v); } S void fill_z(CT&t,const cdouble&v){ t.fill_with(v); }
S CT conv(const RT&t){ return CT(t); }
