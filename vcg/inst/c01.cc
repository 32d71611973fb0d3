// Entry points for the contracts of C01/C02 at the level of containers.
#include <new>
#include <tensor/tensor.h>
#include <tensor/sparse.h>
using namespace tensor;
typedef tensor::index ix;
#define S extern "C"
#define V(E,k) typedef Vector<E> V_##k; \
 S void vec_copy_##k(V_##k *o,const V_##k &v){ new(o) V_##k(v); } \
 S void vec_make_##k(V_##k *o,ix n){ new(o) V_##k(n); } \
 S void vec_none_##k(V_##k *o){ new(o) V_##k(); } \
 S void vec_wrap_##k(V_##k *o,ix n,E *d){ new(o) V_##k(n,d); } \
 S void vec_assign_##k(V_##k &x,const V_##k &v){ x=v; } \
 S void vec_dtor_##k(V_##k *x){ x->~V_##k(); } \
 S void vec_at_##k(V_##k &x,ix i,const E &e){ x.at(i)=e; } \
 S void vec_begin_##k(V_##k &x,ix i,const E &e){ *(x.begin()+i)=e; } \
 S void vec_end_##k(V_##k &x,ix i,const E &e){ *(x.end()-1-i)=e; } \
 S void vec_resize_##k(V_##k &x,ix n){ x.resize(n); } \
 S void vec_get_##k(const V_##k &x,ix i,E *e){ e[0]=x[i]; e[1]=*(x.begin()+i); e[2]=*(x.begin_const()+i); e[3]=*(x.end()-1-i); e[4]=*(x.end_const()-1-i); } \
 S ix vec_size_##k(const V_##k &x){ return x.size(); }
V(double,d) V(cdouble,z) V(ix,l) V(bool,b)
#define T(E,k) typedef Tensor<E> T_##k; \
 S void ten_copy_##k(T_##k *o,const T_##k &v){ new(o) T_##k(v); } \
 S void ten_none_##k(T_##k *o){ new(o) T_##k(); } \
 S void ten_assign_##k(T_##k &x,const T_##k &v){ x=v; } \
 S void ten_dtor_##k(T_##k *x){ x->~T_##k(); } \
 S void ten_tovec_##k(V_##k *o,const T_##k &x){ new(o) V_##k(x); } \
 S void ten_fromvec_##k(T_##k *o,const V_##k &x){ new(o) T_##k(x); } \
 S void ten_as_##k(T_##k *o,const Indices &d,const T_##k &x){ new(o) T_##k(d,x); } \
 S void ten_dims_##k(Indices *o,const T_##k &x){ new(o) Indices(x.dimensions()); } \
 S void ten_at_##k(T_##k &x,ix i,const E &e){ x.at(i)=e; } \
 S void ten_atseq_##k(T_##k &x,ix i,const E &e){ x.at_seq(i)=e; } \
 S void ten_begin_##k(T_##k &x,ix i,const E &e){ *(x.begin()+i)=e; } \
 S void ten_end_##k(T_##k &x,ix i,const E &e){ *(x.end()-1-i)=e; } \
 S void ten_fill_##k(T_##k &x,const E &e){ x.fill_with(e); } \
 S void ten_zeros_##k(T_##k &x){ x.fill_with_zeros(); } \
 S void ten_reshape_##k(T_##k &x,const Indices &d){ x.reshape(d); } \
 S void ten_addt_##k(T_##k &x,const T_##k &y){ x+=y; } S void ten_subt_##k(T_##k &x,const T_##k &y){ x-=y; } \
 S void ten_mult_##k(T_##k &x,const T_##k &y){ x*=y; } S void ten_divt_##k(T_##k &x,const T_##k &y){ x/=y; } \
 S void ten_adds_##k(T_##k &x,const E &y){ x+=y; } S void ten_subs_##k(T_##k &x,const E &y){ x-=y; } \
 S void ten_muls_##k(T_##k &x,const E &y){ x*=y; } S void ten_divs_##k(T_##k &x,const E &y){ x/=y; } \
 typedef Sparse<E> S_##k; \
 S void sp_copy_##k(S_##k *o,const S_##k &v){ new(o) S_##k(v); } \
 S void sp_assign_##k(S_##k &x,const S_##k &v){ x=v; } \
 S void sp_dtor_##k(S_##k *x){ x->~S_##k(); } \
 S void sp_parts_##k(Indices *r,Indices *c,T_##k *d,const S_##k &x){ new(r) Indices(x.priv_row_start()); new(c) Indices(x.priv_column()); new(d) T_##k(x.priv_data()); }
T(double,d) T(cdouble,z)
S void ix_copy(Indices *o,const Indices &v){ new(o) Indices(v); }
S void ix_assign(Indices &x,const Indices &v){ x=v; }
S void ix_fromvec(Indices *o,const Vector<ix> &v){ new(o) Indices(v); }
