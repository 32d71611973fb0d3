// Entry points for the contracts of C09.
#include <tensor/tensor.h>
using namespace tensor;
typedef Tensor<double> RT; typedef Tensor<cdouble> CT;
#define S extern "C"
S Indices cat(const Indices&a,const Indices&b){ return a<<b; }
S Indices irange(long a,long b,long s){ return Indices::range(a,b,s); }
S Indices irange1(long a,long b){ return Indices::range(a,b); }
S long total(const Indices&a){ return a.total_size(); }
S void surr(const Indices&d,long i,long*a,long*b,long*c){ surrounding_dimensions(d,i,a,b,c); }
S RT lin_d(double a,double b,long n){ return linspace(a,b,n); }
S CT lin_z(const cdouble&a,const cdouble&b,long n){ return linspace(a,b,n); }
S RT lint_d(const RT&a,const RT&b,long n){ return linspace(a,b,n); }
S CT lint_z(const CT&a,const CT&b,long n){ return linspace(a,b,n); }
S RT itot(const Indices&a){ return index_to_tensor(a); }
