// Entry points for the contracts of C19
#include <new>
#define TENSOR_LOAD_IMPL
#include <tensor/sparse.h>
using namespace tensor;
#define S extern "C"
S void left_d(RTensor *o,const RSparse &a,const RTensor &b){ new(o) RTensor(mmult(a,b)); }
S void left_z(CTensor *o,const CSparse &a,const CTensor &b){ new(o) CTensor(mmult(a,b)); }
S void right_d(RTensor *o,const RTensor &a,const RSparse &b){ new(o) RTensor(mmult(a,b)); }
S void right_z(CTensor *o,const CTensor &a,const CSparse &b){ new(o) CTensor(mmult(a,b)); }
