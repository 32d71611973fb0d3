// instantiates the inline functions of <tensor/rand.h>
#include <tensor/rand.h>
#include <tensor/tensor.h>
#include <tensor/sparse.h>
namespace c24 {
  int ri(int u) { return tensor::rand<int>(u); }
  int ri2(int l, int u) { return tensor::rand<int>(l, u); }
  long rl(long u) { return tensor::rand<long>(u); }
  long rl2(long l, long u) { return tensor::rand<long>(l, u); }
  unsigned long rul(unsigned long u) { return tensor::rand<unsigned long>(u); }
  unsigned long rul2(unsigned long l, unsigned long u) { return tensor::rand<unsigned long>(l, u); }
}
#include <tensor/tensor.h>
#include <tensor/sparse.h>
using namespace tensor; typedef tensor::index ix;
#define S extern "C"
#define D(T,P,x) S T random1_##x(ix a){ return T::random(a); } S T random2_##x(ix a,ix b){ return T::random(a,b); } S T random3_##x(ix a,ix b,ix c){ return T::random(a,b,c); } \
 S T random4_##x(ix a,ix b,ix c,ix d){ return T::random(a,b,c,d); } S T random5_##x(ix a,ix b,ix c,ix d,ix e){ return T::random(a,b,c,d,e); } S T random6_##x(ix a,ix b,ix c,ix d,ix e,ix f){ return T::random(a,b,c,d,e,f); } \
 S T randomI_##x(const Indices&i){ return T::random(i); } S void randomize_##x(T&t){ t.randomize(); } S P srandom_##x(ix r,ix c,double d){ return P::random(r,c,d); }
D(Tensor<double>,Sparse<double>,d)
D(Tensor<cdouble>,Sparse<cdouble>,z)
