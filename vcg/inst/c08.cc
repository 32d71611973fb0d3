// Entry points for the contracts of C08: comparisons and masks as a user writes them.
#include <tensor/tensor.h>
using namespace tensor;
typedef Tensor<double> RT; typedef Tensor<cdouble> CT; typedef Indices IX; typedef Booleans BO;
#define S extern "C"
#define CMP(n,op) S BO n##_rr(const RT&a,const RT&b){ return a op b; } S BO n##_rs(const RT&a,double b){ return a op b; } S BO n##_sr(double a,const RT&b){ return a op b; } \
 S BO n##_ii(const IX&a,const IX&b){ return a op b; } S BO n##_is(const IX&a,long b){ return a op b; } S BO n##_si(long a,const IX&b){ return a op b; }
CMP(lt,<) CMP(gt,>) CMP(le,<=) CMP(ge,>=) CMP(eq,==) CMP(ne,!=)
#define CMPZ(n,op) S BO n##_zz(const CT&a,const CT&b){ return a op b; } S BO n##_zs(const CT&a,const cdouble&b){ return a op b; } S BO n##_sz(const cdouble&a,const CT&b){ return a op b; }
CMPZ(eq,==) CMPZ(ne,!=)
S BO m_and(const BO&a,const BO&b){ return a&&b; } S BO m_or(const BO&a,const BO&b){ return a||b; } S BO m_not(const BO&a){ return !a; }
S bool all_(const BO&a){ return all_of(a); } S bool any_(const BO&a){ return any_of(a); } S bool none_(const BO&a){ return none_of(a); }
S bool ae_rr(const RT&a,const RT&b){ return all_equal(a,b); } S bool ae_rs(const RT&a,double b){ return all_equal(a,b); } S bool ae_sr(double a,const RT&b){ return all_equal(a,b); }
S bool ae_zz(const CT&a,const CT&b){ return all_equal(a,b); } S bool ae_zs(const CT&a,const cdouble&b){ return all_equal(a,b); } S bool ae_sz(const cdouble&a,const CT&b){ return all_equal(a,b); }
S bool ae_ii(const IX&a,const IX&b){ return all_equal(a,b); }
S IX which_(const BO&a){ return which(a); }
