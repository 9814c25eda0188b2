/* C meaning of __builtin_fpclassify, for goto-cc only */
#if !defined(VF_NATIVE) && !defined(VF_FPC_MODEL_H)
#define VF_FPC_MODEL_H
static inline int vf_fpc32(float x, int n, int i, int no, int s, int z) {
  uint32_t u = vf_u32(x);
  return VF_EXP32(u) == 0xff ? (VF_MAN32(u) ? n : i) : VF_EXP32(u) ? no : VF_MAN32(u) ? s : z;
}
static inline int vf_fpc64(double x, int n, int i, int no, int s, int z) {
  uint64_t u = vf_u64(x);
  return VF_EXP64(u) == 0x7ff ? (VF_MAN64(u) ? n : i) : VF_EXP64(u) ? no : VF_MAN64(u) ? s : z;
}
static inline int vf_fpc128(_Float128 x, int n, int i, int no, int s, int z) {
  union { _Float128 f; __uint128_t u; } y;
  y.f = x;
  __uint128_t m = y.u & (((__uint128_t)1 << 112) - 1);
  int e = (int)((y.u >> 112) & 0x7fff);
  return e == 0x7fff ? (m ? n : i) : e ? no : m ? s : z;
}
#define vf_fpclassify_gen(n, i, no, s, z, x)                                                        \
  (_Generic((x), float: vf_fpc32, double: vf_fpc64, _Float128: vf_fpc128)(x, n, i, no, s, z))
#endif
