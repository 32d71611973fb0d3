// Uses header templates and inline functions of the library so that their real bodies
// (taken from /repo/include on every run) reach the verifier.
#include <tensor/tensor.h>
#include <tensor/sparse.h>
#include <tensor/linalg.h>
namespace tensor {
typedef Tensor<double> RT; typedef Tensor<cdouble> CT;
#define U(n,op,A,B) void use_##n(const A&a,const B&b){ a op b; }
#define ALL(n,op) U(n##1,op,RT,CT) U(n##2,op,CT,RT) U(n##3,op,RT,cdouble) U(n##4,op,CT,double) U(n##5,op,cdouble,RT) U(n##6,op,double,CT)
ALL(pl,+) ALL(mi,-) ALL(ti,*) ALL(di,/)
#define V(n,op,A,B) void usei_##n(A&a,const B&b){ a op b; }
#define ALLI(n,op) V(n##1,op,CT,RT) V(n##2,op,RT,RT) V(n##3,op,CT,CT) V(n##4,op,RT,double) V(n##5,op,CT,cdouble) V(n##6,op,CT,double)
ALLI(pl,+=) ALLI(mi,-=) ALLI(ti,*=) ALLI(di,/=)
void use_neg(const RT&a,const CT&b){ -a; -b; }
void use_inl(const RT&a,const CT&b,const Indices&i,const Booleans&o,double d,cdouble z,index n){
  real(a); conj(a); adjoint(a); to_complex(b); all_equal(d,a); all_equal(z,b); 
  d==a; d!=a; d<a; d>a; d<=a; d>=a; n==i; n!=i; n<i; n>i; n<=i; n>=i; z==b; z!=b; none_of(o); some_unequal(i,i); some_unequal(a,a); some_unequal(b,b); some_unequal(a,d);
  iota(n,n,n); real(d); imag(d); conj(d); abs2(d); abs2(z);
}
}
