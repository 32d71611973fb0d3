/* include/tensor/config.h.  Generated from config.h.in by configure.  */
// -*- mode: c++; fill-column: 80; c-basic-offset: 2; indent-tabs-mode: nil -*-
//
// Copyright 2008, Juan Jose Garcia-Ripoll
//

#ifndef TENSOR_CONFIG_H
#define TENSOR_CONFIG_H

/* #undef TENSOR_USE_ATLAS */
#define TENSOR_USE_OPENBLAS 1
/* #undef TENSOR_USE_VECLIB */
/* #undef TENSOR_USE_LAPACK */
/* #undef TENSOR_USE_MKL */
/* #undef TENSOR_USE_ACML */
/* #undef TENSOR_USE_ESSL */
/* #undef TENSOR_USE_CBLAPACK */
#define TENSOR_USE_FFTW3 1
#define HAVE_CBLAS_H 1
/* #undef HAVE_ATLAS_CBLAS_H */
/* #undef HAVE_VECLIB_CBLAS_H */
/* #undef HAVE_ACCELERATE_ACCELERATE_H */
#define HAVE_DLADDR 1
#define HAVE_BACKTRACE 1
#define HAVE_BACKTRACE_SYMBOLS 1
#define HAVE___BUILTIN_RETURN_ADDRESS 1
#define HAVE_GETTIMEOFDAY 1
/* #undef TENSOR_BIGENDIAN */
#define F77_FUNC(name,NAME) name ## _

#define TENSOR_64BITS 1

#endif // !TENSOR_CONFIG_H
