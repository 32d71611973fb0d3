// Entry points for the contracts of C27
#include <new>
#include <tensor/tensor.h>
#include <tensor/fftw.h>
using namespace tensor;
#define S extern "C"
typedef tensor::index ix;
S void fft_all(CTensor *o,const CTensor &a,int dir){ new(o) CTensor(tensor::fftw(a,dir)); }
S void fft_one(CTensor *o,const CTensor &a,ix k,int dir){ new(o) CTensor(tensor::fftw(a,k,dir)); }
S void fft_some(CTensor *o,const CTensor &a,const Booleans &b,int dir){ new(o) CTensor(tensor::fftw(a,b,dir)); }
S void fftin_all(CTensor &a,int dir){ tensor::fftw_inplace(a,dir); }
S void fftin_one(CTensor &a,ix k,int dir){ tensor::fftw_inplace(a,k,dir); }
S void fftin_some(CTensor &a,const Booleans &b,int dir){ tensor::fftw_inplace(a,b,dir); }
S void shift_all(CTensor *o,const CTensor &a,int dir){ new(o) CTensor(tensor::fftshift(a,dir)); }
S void shift_one(CTensor *o,const CTensor &a,ix k,int dir){ new(o) CTensor(tensor::fftshift(a,k,dir)); }
S void shift_some(CTensor *o,const CTensor &a,const Booleans &b,int dir){ new(o) CTensor(tensor::fftshift(a,b,dir)); }
