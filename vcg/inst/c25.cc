// Entry points for the contracts of C25
#include <new>
#define TENSOR_LOAD_IMPL
#include <tensor/tensor.h>
#include <tensor/linalg.h>
using namespace tensor;
#define S extern "C"
typedef RTensor R; typedef CTensor C; typedef const R &r; typedef const C &z;
S void solve_d(R *o,r a,r b){ new(o) R(linalg::solve(a,b)); }
S void solve_z(C *o,z a,z b){ new(o) C(linalg::solve(a,b)); }
S void svd_d(R *o,r a,R *u,R *v,bool e){ new(o) R(linalg::svd(a,u,v,e)); }
S void svd_z(R *o,z a,C *u,C *v,bool e){ new(o) R(linalg::svd(a,u,v,e)); }
S void eigsym_d(R *o,r a,R *v){ new(o) R(linalg::eig_sym(a,v)); }
S void eigsym_z(R *o,z a,C *v){ new(o) R(linalg::eig_sym(a,v)); }
S void eig_z(C *o,z a,C *p,C *q){ new(o) C(linalg::eig(a,p,q)); }
S void eig_d(C *o,r a,C *p,C *q){ new(o) C(linalg::eig(a,p,q)); }
S void expm_d(R *o,r a,unsigned n){ new(o) R(linalg::expm(a,n)); }
S void expm_z(C *o,z a,unsigned n){ new(o) C(linalg::expm(a,n)); }
S void ssvd_d(R *o,r a,r b,double t){ new(o) R(linalg::solve_with_svd(a,b,t)); }
S void ssvd_z(C *o,z a,z b,double t){ new(o) C(linalg::solve_with_svd(a,b,t)); }
