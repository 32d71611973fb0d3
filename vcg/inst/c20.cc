// Entry points for the contracts of C20
#include <new>
#define TENSOR_LOAD_IMPL
#include <tensor/sparse.h>
using namespace tensor;
namespace tensor { const Indices sparse_rows(const Indices &row_start, const Indices &column); }
#define S extern "C"
typedef RSparse R; typedef CSparse C; typedef const R &r; typedef const C &z;
S void kron_d(R *o,r a,r b){ new(o) R(kron(a,b)); }
S void kron_z(C *o,z a,z b){ new(o) C(kron(a,b)); }
S void kron2_d(R *o,r a,r b){ new(o) R(kron2(a,b)); }
S void kron2_z(C *o,z a,z b){ new(o) C(kron2(a,b)); }
S void real_d(R *o,r a){ new(o) R(real(a)); }
S void conj_d(R *o,r a){ new(o) R(conj(a)); }
S void imag_d(R *o,r a){ new(o) R(imag(a)); }
S void real_z(R *o,z a){ new(o) R(real(a)); }
S void conj_z(C *o,z a){ new(o) C(conj(a)); }
S void imag_z(R *o,z a){ new(o) R(imag(a)); }
S void toc_d(C *o,r a){ new(o) C(to_complex(a)); }
S void toc_z(C *o,z a){ new(o) C(to_complex(a)); }
S void rows_(Indices *o,const Indices &rs,const Indices &co){ new(o) Indices(sparse_rows(rs,co)); }
S void transpose_d(R *o,r a){ new(o) R(transpose(a)); }
S void transpose_z(C *o,z a){ new(o) C(transpose(a)); }
S void adjoint_d(R *o,r a){ new(o) R(adjoint(a)); }
S void adjoint_z(C *o,z a){ new(o) C(adjoint(a)); }
S void kronsum_d(R *o,r a,r b){ new(o) R(kron2_sum(a,b)); }
S void kronsum_z(C *o,z a,z b){ new(o) C(kron2_sum(a,b)); }
