// Entry points for the contracts of the reference counted storage (C01, C02): the bodies of RefPointer itself.
#include <new>
#include <tensor/tensor.h>
using namespace tensor;
#define S extern "C"
#define I(E,k) typedef RefPointer<E> RP_##k; \
 S void rp_default_##k(RP_##k *p){ new(p) RP_##k(); } \
 S void rp_alloc_##k(RP_##k *p,size_t n){ new(p) RP_##k(n); } \
 S void rp_wrap_##k(RP_##k *p,E *d,size_t n,bool o){ new(p) RP_##k(d,n,o); } \
 S void rp_wrap0_##k(RP_##k *p,E *d,size_t n){ new(p) RP_##k(d,n); } \
 S void rp_copy_##k(RP_##k *p,const RP_##k &q){ new(p) RP_##k(q); } \
 S void rp_dtor_##k(RP_##k *p){ p->~RP_##k(); } \
 S RP_##k *rp_assign_##k(RP_##k &p,const RP_##k &q){ return &(p=q); } \
 S E *rp_begin_##k(RP_##k &p){ return p.begin(); } \
 S E *rp_end_##k(RP_##k &p){ return p.end(); } \
 S const E *rp_cbegin_##k(const RP_##k &p){ return p.begin(); } \
 S const E *rp_cend_##k(const RP_##k &p){ return p.end(); } \
 S const E *rp_cbegin2_##k(const RP_##k &p){ return p.begin_const(); } \
 S const E *rp_cend2_##k(const RP_##k &p){ return p.end_const(); } \
 S size_t rp_size_##k(const RP_##k &p){ return p.size(); } \
 S size_t rp_count_##k(const RP_##k &p){ return p.ref_count(); } \
 S void rp_realloc_##k(RP_##k &p,size_t n){ p.reallocate(n); }
I(double,d) I(cdouble,z) I(long,l) I(bool,b)
