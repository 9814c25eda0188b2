/* The platform's fused multiply-add (libm fma/fmaf, libquadmath fmaq) is an
 * uninterpreted function for the verifier: two calls agree exactly when their
 * operands do. Natively it is the real one. Trusted: that it is correctly
 * rounded. */
#ifndef VF_FMA_MODEL_H
#define VF_FMA_MODEL_H
#ifdef VF_NATIVE
#include <math.h>
#include <quadmath.h>
#define vf_fma32 fmaf
#define vf_fma64 fma
#define vf_fma128 fmaq
#define HAS_QUADMATH
#else
float __CPROVER_uninterpreted_fma32(float, float, float);
double __CPROVER_uninterpreted_fma64(double, double, double);
_Float128 __CPROVER_uninterpreted_fma128(_Float128, _Float128, _Float128);
#define vf_fma32 __CPROVER_uninterpreted_fma32
#define vf_fma64 __CPROVER_uninterpreted_fma64
#define vf_fma128 __CPROVER_uninterpreted_fma128
#define __builtin_fmaf __CPROVER_uninterpreted_fma32
#define __builtin_fma __CPROVER_uninterpreted_fma64
#define fmaf __CPROVER_uninterpreted_fma32
#define fma __CPROVER_uninterpreted_fma64
#define HAS_QUADMATH
#include <quadmath.h>
#define fmaq __CPROVER_uninterpreted_fma128
#define fmaFP128 __CPROVER_uninterpreted_fma128
#define PFP128_H_INCLUDED
#define _PFP128_H_INCLUDED_
#endif
#endif
