// Entry points for the contracts of C21
#include <new>
#include <tensor/tensor.h>
using namespace tensor;
#define S extern "C"
S void sort_d(RTensor *o,const RTensor &v,bool r){ new(o) RTensor(sort(v,r)); }
S void sort_i(Indices *o,const Indices &v,bool r){ new(o) Indices(sort(v,r)); }
S void sortndx_d(Indices *o,const RTensor &v,bool r){ new(o) Indices(sort_indices(v,r)); }
S void sortndx_i(Indices *o,const Indices &v,bool r){ new(o) Indices(sort_indices(v,r)); }
