// Entry points for the contracts of C07: the expressions a user writes, on the library's own operators.
#include <tensor/tensor.h>
using namespace tensor;
typedef Tensor<double> RT; typedef Tensor<cdouble> CT; typedef double d_; typedef cdouble z_;
#define S extern "C"
#define BIN(n,op) \
 S RT n##_tt_dd(const RT&a,const RT&b){ return a op b; } S CT n##_tt_zz(const CT&a,const CT&b){ return a op b; } \
 S CT n##_tt_dz(const RT&a,const CT&b){ return a op b; } S CT n##_tt_zd(const CT&a,const RT&b){ return a op b; } \
 S RT n##_tn_dd(const RT&a,const d_&b){ return a op b; } S CT n##_tn_zz(const CT&a,const z_&b){ return a op b; } \
 S CT n##_tn_dz(const RT&a,const z_&b){ return a op b; } S CT n##_tn_zd(const CT&a,const d_&b){ return a op b; } \
 S RT n##_nt_dd(const d_&a,const RT&b){ return a op b; } S CT n##_nt_zz(const z_&a,const CT&b){ return a op b; } \
 S CT n##_nt_dz(const d_&a,const CT&b){ return a op b; } S CT n##_nt_zd(const z_&a,const RT&b){ return a op b; } \
 S void n##_it_dd(RT&a,const RT&b){ a op##= b; } S void n##_it_zz(CT&a,const CT&b){ a op##= b; } S void n##_it_zd(CT&a,const RT&b){ a op##= b; } \
 S void n##_in_dd(RT&a,const d_&b){ a op##= b; } S void n##_in_zz(CT&a,const z_&b){ a op##= b; } S void n##_in_zd(CT&a,const d_&b){ a op##= b; }
BIN(add,+) BIN(sub,-) BIN(mul,*) BIN(div,/)
#define UN(f) S RT u_##f##_d(const RT&a){ return f(a); } S CT u_##f##_z(const CT&a){ return f(a); }
UN(sqrt) UN(exp) UN(log) UN(sin) UN(cos) UN(tan) UN(sinh) UN(cosh) UN(tanh) UN(conj)
S RT u_neg_d(const RT&a){ return -a; } S CT u_neg_z(const CT&a){ return -a; }
S RT u_abs_d(const RT&a){ return abs(a); } S RT u_abs_z(const CT&a){ return abs(a); }
S RT u_round_d(const RT&a){ return round(a); }
S RT u_real_d(const RT&a){ return real(a); } S RT u_real_z(const CT&a){ return real(a); }
S RT u_imag_d(const RT&a){ return imag(a); } S RT u_imag_z(const CT&a){ return imag(a); }
S CT u_toc_d(const RT&a){ return to_complex(a); } S CT u_toc_z(const CT&a){ return to_complex(a); }
S CT u_toc2_d(const RT&a,const RT&b){ return to_complex(a,b); }
