// Entry points for the contracts of C17
#include <new>
#define TENSOR_LOAD_IMPL
#include <tensor/sparse.h>
using namespace tensor;
#define S extern "C"
typedef RSparse R; typedef CSparse C; typedef const R &r; typedef const C &z; typedef tensor::index I;
S void none_d(R *o){ new(o) R(); }
S void none_z(C *o){ new(o) C(); }
S void sized_d(R *o,I a,I b){ new(o) R(a,b); }
S void sized_z(C *o,I a,I b){ new(o) C(a,b); }
S void room_d(R *o,I a,I b,I n){ new(o) R(a,b,n); }
S void room_z(C *o,I a,I b,I n){ new(o) C(a,b,n); }
S void eye_d(R *o,I a,I b){ new(o) R(R::eye(a,b)); }
S void eye_z(C *o,I a,I b){ new(o) C(C::eye(a,b)); }
S void eye1_d(R *o,I a){ new(o) R(R::eye(a)); }
S void eye1_z(C *o,I a){ new(o) C(C::eye(a)); }
S double at_d(r a,I i,I j){ return a(i,j); }
S void at_z(cdouble *o,z a,I i,I j){ *o=a(i,j); }
S void copy_d(R *o,r a){ new(o) R(a); }
S void copy_z(C *o,z a){ new(o) C(a); }
S void assign_d(R &o,r a){ o=a; }
S void assign_z(C &o,z a){ o=a; }
S void conv(C *o,r a){ new(o) C(a); }
S void full_d(RTensor *o,r a){ new(o) RTensor(full(a)); }
S void full_z(CTensor *o,z a){ new(o) CTensor(full(a)); }
S void dense_d(R *o,const RTensor &t){ new(o) R(t); }
S void dense_z(C *o,const CTensor &t){ new(o) C(t); }
S void raw_d(R *o,const Indices &d,const Indices &s,const Indices &c,const RTensor &t){ new(o) R(d,s,c,t); }
S void raw_z(C *o,const Indices &d,const Indices &s,const Indices &c,const CTensor &t){ new(o) C(d,s,c,t); }
S I rows_d(r a){ return a.rows(); }
S I columns_d(r a){ return a.columns(); }
S I length_d(r a){ return a.length(); }
S I dim_d(r a,int k){ return a.dimension(k); }
S bool empty_d(r a){ return a.is_empty(); }
S I rows_z(z a){ return a.rows(); }
S I columns_z(z a){ return a.columns(); }
S I length_z(z a){ return a.length(); }
S I dim_z(z a,int k){ return a.dimension(k); }
S bool empty_z(z a){ return a.is_empty(); }
// construction from coordinates
S void coords_d(R *o,const Indices &r,const Indices &c,const RTensor &t,long nr,long nc){ new(o) R(r,c,t,nr,nc); }
S void coords_z(C *o,const Indices &r,const Indices &c,const CTensor &t,long nr,long nc){ new(o) C(r,c,t,nr,nc); }
S void random_d(RSparse *o,tensor::index r,tensor::index c,double d){ new(o) RSparse(RSparse::random(r,c,d)); }
S void random_z(CSparse *o,tensor::index r,tensor::index c,double d){ new(o) CSparse(CSparse::random(r,c,d)); }
