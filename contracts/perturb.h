/* Shared by the perturbing backends (mcaquad, mcaint, bitmask): the operation
 * contract in terms of
 *   inexact<NW>(x, t)   the unit's specification of one perturbation
 *   IN_PB / IN_RR       whether operands / results are perturbed
 * and the harnesses H2 (binary), H3 (fma), HCAST. The including unit defines the
 * inputs, the_ctx, ctx_same(), setup() and k, the number of draws so far. */
#ifndef VF_PERTURB_H
#define VF_PERTURB_H
typedef union {
  _Float128 f;
  __uint128_t u;
} s128;
#ifdef VF_COMP
/* Callers against the contract of the private perturbation functions (established by
 * h_inexact*): the result and the number of draws are functions of the
 * operand and of the position in the stream. */
#ifndef ARGS
#define ARGS(T) T *x, void *c
#endif
#define COMP(T, N)                                                                                  \
  T __CPROVER_uninterpreted_inexact##N(T, int);                                                     \
  int __CPROVER_uninterpreted_draws##N(T, int);                                                     \
  void stub_inexact##N(ARGS(T)) {                                                                   \
    T v = *x;                                                                                       \
    VF_ASSERT(c == (void *)&the_ctx && ctx_same() && !rng_state.random_state_valid, "pre: inexact" #N);           \
    *x = __CPROVER_uninterpreted_inexact##N(v, vf_drawn);                                           \
    vf_drawn = __CPROVER_uninterpreted_draws##N(v, vf_drawn);                                       \
  }                                                                                                 \
  static inline T Inexact##N(T v, int t) {                                                          \
    T r = __CPROVER_uninterpreted_inexact##N(v, k);                                                 \
    k = __CPROVER_uninterpreted_draws##N(v, k);                                                     \
    return r;                                                                                       \
  }
#else
#define COMP(T, N)
#define Inexact32 inexact32
#define Inexact64 inexact64
#define Inexact128 inexact128
#endif
#ifdef VF_INTERNAL
#ifndef CALLX
#define CALLX(F, p, c) F(p, c)
#endif
VF_INPUT(uint32_t, x32);
VF_INPUT(uint64_t, x64);
VF_INPUT(__uint128_t, x128);
VF_INPUT(uint32_t, k0);
VF_INPUT(uint8_t, started);
#define HI(H, FN, T, N, PREC, READ, SAME)                                                           \
  void H(void) {                                                                                    \
    void *ctx = setup();                                                                            \
    VF_GET(x##N); VF_GET(k0); VF_GET(started);                                                      \
    VF_ASSUME(in_k0 <= 8);                                                                          \
    k = vf_drawn = in_k0;                                                                           \
    rng_state.random_state_valid = in_started != 0;                                                 \
    T x = READ(in_x##N), y = x;                                                                     \
    CALLX(FN, &x, ctx);                                                                             \
    y = inexact##N(y, PREC);                                                                        \
    POST(SAME(x, y), "operand plus noise scaled to its last virtual bit");                          \
    POSTS_DRAWS(k)                                                                                  \
    VF_REACH();                                                                                     \
  }
static inline _Float128 rd128(__uint128_t u) { s128 x; x.u = u; return x.f; }
static inline bool same128(_Float128 a, _Float128 b) {
  s128 x, y;
  x.f = a; y.f = b;
  return x.u == y.u;
}
static inline bool bits32(float a, float b) { return vf_u32(a) == vf_u32(b); }
static inline bool bits64(double a, double b) { return vf_u64(a) == vf_u64(b); }
#endif
static inline float daz32(float x) { return in_daz && VF_SUB32(vf_u32(x)) ? 0.0f : x; }
static inline double daz64(double x) { return in_daz && VF_SUB64(vf_u64(x)) ? 0.0 : x; }
static inline float ftz32(float x) { return in_ftz && VF_SUB32(vf_u32(x)) ? 0.0f : x; }
static inline double ftz64(double x) { return in_ftz && VF_SUB64(vf_u64(x)) ? 0.0 : x; }

#define H2(H, FN, T, W, NB, NW, PREC, OP)                                                           \
  void H(void) {                                                                                    \
    void *ctx = setup();                                                                            \
    T a = vf_f##NB(in_a), b = vf_f##NB(in_b), r;                                                    \
    FN(a, b, &r, ctx);                                                                              \
    W x = daz##NB(a), y = daz##NB(b);                                                               \
    if (IN_PB) {                                                                                    \
      x = Inexact##NW(x, PREC);                                                                     \
      y = Inexact##NW(y, PREC);                                                                     \
    }                                                                                               \
    W z = x OP y;                                                                                   \
    if (IN_RR)                                                                                      \
      z = Inexact##NW(z, PREC);                                                                     \
    if (in_ftz)                                                                                     \
      z = ftz##NB((T)z);                                                                            \
    T w = (T)z;                                                                                     \
    POST(vf_same##NB(r, w), "result is the MCA operation on the drawn noise");                      \
    POSTS_DRAWS(k)                                                                                  \
    VF_REACH();                                                                                     \
  }
#define H3(H, FN, T, W, NB, NW, PREC, FMA)                                                          \
  void H(void) {                                                                                    \
    void *ctx = setup();                                                                            \
    T a = vf_f##NB(in_a), b = vf_f##NB(in_b), c = vf_f##NB(in_c), r;                                \
    FN(a, b, c, &r, ctx);                                                                           \
    W x = daz##NB(a), y = daz##NB(b), v = daz##NB(c);                                               \
    if (IN_PB) {                                                                                    \
      x = Inexact##NW(x, PREC);                                                                     \
      y = Inexact##NW(y, PREC);                                                                     \
      v = Inexact##NW(v, PREC);                                                                     \
    }                                                                                               \
    W z = FMA(x, y, v);                                                                             \
    if (IN_RR)                                                                                      \
      z = Inexact##NW(z, PREC);                                                                     \
    if (in_ftz)                                                                                     \
      z = ftz##NB((T)z);                                                                            \
    T w = (T)z;                                                                                     \
    POST(vf_same##NB(r, w), "result is the MCA operation on the drawn noise");                      \
    POSTS_DRAWS(k)                                                                                  \
    VF_REACH();                                                                                     \
  }
#define HCAST(FN, W, NW)                                                                            \
void h_cast(void) {                                                                                 \
  void *ctx = setup();                                                                              \
  double a = vf_f64(in_a);                                                                          \
  float r;                                                                                          \
  FN(a, &r, ctx);                                                                                   \
  W x = daz64(a);                                                                                   \
  if (IN_PB)                                                                                        \
    x = Inexact##NW(x, in_prec64);                                                                  \
  W z = (float)x;                                                                                   \
  if (IN_RR)                                                                                        \
    z = Inexact##NW(z, in_prec64);                                                                  \
  if (in_ftz)                                                                                       \
    z = ftz64((double)z);                                                                           \
  float w = ftz32((float)(double)z);                                                                \
  POST(vf_same32(r, w), "cast is the MCA operation on the drawn noise");                            \
  POSTS_DRAWS(k)                                                                                    \
  VF_REACH();                                                                                       \
}
#endif
