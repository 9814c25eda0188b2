/* Stand-ins for compiler built-ins that CBMC's front end lacks; the meaning is
 * the one C11 7.12.14 gives. Only seen by goto-cc (never by the native replay,
 * which uses the compiler's own). Listed in every evidence file as trusted. */
#ifndef VF_SHIM_H
#define VF_SHIM_H
#ifndef VF_NATIVE
#include <math.h>
#undef isgreater
#undef isgreaterequal
#undef isless
#undef islessequal
#undef islessgreater
#undef isunordered
#define isgreater(x, y) ((x) > (y))
#define isgreaterequal(x, y) ((x) >= (y))
#define isless(x, y) ((x) < (y))
#define islessequal(x, y) ((x) <= (y))
#define islessgreater(x, y) ((x) < (y) || (x) > (y))
#define isunordered(x, y) ((x) != (x) || (y) != (y))
#define __builtin_isgreater(x, y) ((x) > (y))
#define __builtin_isgreaterequal(x, y) ((x) >= (y))
#define __builtin_isless(x, y) ((x) < (y))
#define __builtin_islessequal(x, y) ((x) <= (y))
#define __builtin_islessgreater(x, y) ((x) < (y) || (x) > (y))
#define __builtin_isunordered(x, y) ((x) != (x) || (y) != (y))
#include "fpc_model.h"
#define __builtin_isfinite(x) (vf_fpclassify_gen(0, 0, 1, 1, 1, x))
#define __builtin_isnan(x) ((x) != (x))
#define __builtin_isinf_sign(x) (vf_fpclassify_gen(0, 1, 0, 0, 0, x) ? ((x) < 0 ? -1 : 1) : 0)
#define __builtin_isinf(x) (vf_fpclassify_gen(0, 1, 0, 0, 0, x))
#define __builtin_isnormal(x) (vf_fpclassify_gen(0, 0, 1, 0, 0, x))
/* usable through a _Generic selection; undefined for 0, as GCC documents */
static inline int vf_clz32(unsigned x) {
  int n = 0;
  __CPROVER_assert(x != 0, "__builtin_clz(0) is undefined");
  if (!(x >> 16)) { n += 16; x <<= 16; }
  if (!(x >> 24)) { n += 8; x <<= 8; }
  if (!(x >> 28)) { n += 4; x <<= 4; }
  if (!(x >> 30)) { n += 2; x <<= 2; }
  if (!(x >> 31)) n += 1;
  return n;
}
static inline int vf_clz64(unsigned long x) {
  __CPROVER_assert(x != 0, "__builtin_clzl(0) is undefined");
  return (x >> 32) ? vf_clz32((unsigned)(x >> 32)) : 32 + vf_clz32((unsigned)x);
}
#define __builtin_clz vf_clz32
#define __builtin_clzl vf_clz64
#define __builtin_clzll vf_clz64
#endif
#endif
