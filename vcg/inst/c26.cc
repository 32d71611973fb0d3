// Entry points for the contracts of C26
#include <new>
#define TENSOR_LOAD_IMPL
#include <tensor/tensor.h>
#include <tensor/linalg.h>
#include "linalg/find_blocks.hpp"
using namespace tensor;
#define S extern "C"
typedef RTensor R; typedef CTensor C; typedef const R &r; typedef const C &z;
S bool blocks_d(r a,tensor::index *n,Indices **p,Indices **q,double tol){ return linalg::find_blocks(a,n,p,q,tol); }
S bool blocks_z(z a,tensor::index *n,Indices **p,Indices **q,double tol){ return linalg::find_blocks(a,n,p,q,tol); }
S void bsvd_d(R *o,r a,R *u,R *v,bool e){ new(o) R(linalg::block_svd(a,u,v,e)); }
S void bsvd_z(R *o,z a,C *u,C *v,bool e){ new(o) R(linalg::block_svd(a,u,v,e)); }
S void replace(tensor::index n,tensor::index *v,tensor::index a,tensor::index b){ linalg::replace_integer(n,v,a,b); }
