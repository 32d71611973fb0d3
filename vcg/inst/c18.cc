// Entry points for the contracts of C18
#include <new>
#define TENSOR_LOAD_IMPL
#include <tensor/sparse.h>
using namespace tensor;
#define S extern "C"
typedef RSparse R; typedef CSparse C; typedef const R &r; typedef const C &z; typedef double d; typedef const cdouble &x;
S void neg_d(R *o,r a){ new(o) R(-a); }
S void neg_z(C *o,z a){ new(o) C(-a); }
S void mul_d_d(R *o,r a,d b){ new(o) R(a*b); }
S void lmul_d_d(R *o,r a,d b){ new(o) R(b*a); }
S void div_d_d(R *o,r a,d b){ new(o) R(a/b); }
S void mul_z_z(C *o,z a,x b){ new(o) C(a*b); }
S void lmul_z_z(C *o,z a,x b){ new(o) C(b*a); }
S void div_z_z(C *o,z a,x b){ new(o) C(a/b); }
S void mul_z_d(C *o,z a,d b){ new(o) C(a*b); }
S void lmul_z_d(C *o,z a,d b){ new(o) C(b*a); }
S void div_z_d(C *o,z a,d b){ new(o) C(a/b); }
S void mul_d_z(C *o,r a,x b){ new(o) C(a*b); }
S void lmul_d_z(C *o,r a,x b){ new(o) C(b*a); }
S void div_d_z(C *o,r a,x b){ new(o) C(a/b); }
S void add_d_d(R *o,r a,r b){ new(o) R(a+b); }
S void sub_d_d(R *o,r a,r b){ new(o) R(a-b); }
S void tim_d_d(R *o,r a,r b){ new(o) R(a*b); }
S void add_z_z(C *o,z a,z b){ new(o) C(a+b); }
S void sub_z_z(C *o,z a,z b){ new(o) C(a-b); }
S void tim_z_z(C *o,z a,z b){ new(o) C(a*b); }
S void add_d_z(C *o,r a,z b){ new(o) C(a+b); }
S void sub_d_z(C *o,r a,z b){ new(o) C(a-b); }
S void tim_d_z(C *o,r a,z b){ new(o) C(a*b); }
S void add_z_d(C *o,z a,r b){ new(o) C(a+b); }
S void sub_z_d(C *o,z a,r b){ new(o) C(a-b); }
S void tim_z_d(C *o,z a,r b){ new(o) C(a*b); }
S bool eq_d(r a,r b){ return all_equal(a,b); }
S bool eq_z(z a,z b){ return all_equal(a,b); }
