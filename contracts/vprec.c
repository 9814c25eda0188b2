/* VPREC backend. Text under proof: interflop_vprec.c and common/vprec_tools.c,
 * verbatim. The virtual format has p explicit mantissa bits and r exponent bits:
 * emax = 2^(r-1)-1, emin = 1-emax. The specification (vround) works on the integer
 * encoding only, so it shares no floating-point operation with the code. */
#include "vf.h"
#include "shim.h"
#include "fma_model.h"
#include "interflop/interflop.h"
#ifndef VF_NATIVE
#define __builtin_fpclassify(a, b, c, d, e, x) vf_fpclassify_gen(a, b, c, d, e, x)
#endif
#include "fpc_model.h"
#include "interflop/interflop_stdlib.c"
#include "interflop/fma/interflop_fma.c"
#include "common/vprec_tools.c"
#include "interflop_vprec.c"
#include "handlers.h"

VF_INPUT(uint64_t, a);
VF_INPUT(uint64_t, b);
VF_INPUT(uint64_t, c);
VF_INPUT(uint32_t, mode);
VF_INPUT(uint32_t, p32);
VF_INPUT(uint32_t, r32);
VF_INPUT(uint32_t, p64);
VF_INPUT(uint32_t, r64);
VF_INPUT(uint8_t, daz);
VF_INPUT(uint8_t, ftz);
VF_INPUT(uint32_t, abse);

static vprec_context_t the_ctx, ctx0;
static void *setup(void) {
  vf_handlers();
  VF_GET(a); VF_GET(b); VF_GET(c); VF_GET(daz); VF_GET(ftz); VF_GET(abse);
#ifdef VF_MODE
  in_mode = VF_MODE;
#else
  VF_RANGE(mode, 0, _vprecmode_end_ - 1);
#endif
  VF_RANGE(p32, 1, 23);
  VF_RANGE(r32, 2, 8);
  VF_RANGE(p64, 1, 52);
  VF_RANGE(r64, 2, 11);
  the_ctx.vfi = 0;
  the_ctx.binary32_precision = in_p32;
  the_ctx.binary32_range = in_r32;
  the_ctx.binary64_precision = in_p64;
  the_ctx.binary64_range = in_r64;
  the_ctx.absErr_exp = (int)in_abse;
  the_ctx.mode = (vprec_mode)in_mode;
#ifdef VF_ABS /* absolute error model, alone (1) or with the relative one (3) */
  in_abse = (uint32_t)((int)in_abse % (1 << 13)); /* thresholds 2^-8191 .. 2^8191 */
  the_ctx.absErr_exp = (int)in_abse;
  the_ctx.relErr = VF_ABS == 3;
  the_ctx.absErr = true;
#else
  the_ctx.relErr = true;
  the_ctx.absErr = false;
#endif
  the_ctx.daz = in_daz != 0;
  the_ctx.ftz = in_ftz != 0;
  ctx0 = the_ctx;
  return &the_ctx;
}
static inline bool ctx_same(void) {
  return the_ctx.mode == ctx0.mode && the_ctx.binary32_precision == ctx0.binary32_precision &&
         the_ctx.binary64_precision == ctx0.binary64_precision && the_ctx.binary32_range == ctx0.binary32_range &&
         the_ctx.binary64_range == ctx0.binary64_range && the_ctx.absErr_exp == ctx0.absErr_exp &&
         the_ctx.relErr == ctx0.relErr && the_ctx.absErr == ctx0.absErr && the_ctx.daz == ctx0.daz &&
         the_ctx.ftz == ctx0.ftz;
}
/* Rounding to nearest, ties to even, in the format (p, r); half of the smallest
 * subnormal goes up, anything smaller to +0 (the sign the reference files of
 * tests/test_vprec_backend ask for). `flush`: subnormals of the format become zero. */
#define VROUND(T, U, N, W, BIAS)                                                                    \
  static inline T vround##N(T x, int r, int p, bool flush) {                                        \
    U u = vf_u##N(x), sgn = u & ~(((U)-1) >> 1), mag = u ^ sgn, man = VF_MAN##N(u);                 \
    int e = (int)VF_EXP##N(u), emax = (1 << (r - 1)) - 1, emin = 1 - emax;                          \
    if (VF_SPECIAL##N(u) || mag == 0)                                                               \
      return x;                                                                                     \
    bool small = e - BIAS < emin;                                                                   \
    if (small && flush)                                                                             \
      return vf_f##N(sgn);                                                                          \
    int f = e ? e : 1; /* |x| = M.2^(f-BIAS-W) */                                                   \
    U M = e ? man | ((U)1 << W) : man;                                                              \
    int k = W - p + (small ? emin - (f - BIAS) : 0); /* bits to drop */                             \
    if (k > W + 2)                                                                                  \
      k = W + 2;                                                                                    \
    U q = M >> k, rest = M & (((U)1 << k) - 1), half = k ? (U)1 << (k - 1) : 0;                     \
    if (k && (rest > half || (rest == half && ((q & 1) || q == 0))))                                \
      q++;                                                                                          \
    U R = q << k, bits = R == 0 ? 0 : ((U)(f - 1) << W) + R; /* a carry moves to the next binade */ \
    if (bits >= (U)(emax + BIAS + 1) << W)                                                          \
      bits = (U)(2 * BIAS + 1) << W;                                                                \
    return vf_f##N(bits ? sgn | bits : 0);                                                                   \
  }
VROUND(float, uint32_t, 32, 23, 127)
VROUND(double, uint64_t, 64, 52, 1023)

#ifdef VF_COMP
#define COMPR(T, N)                                                                                 \
  T __CPROVER_uninterpreted_vround##N(T, int, int, _Bool);                                          \
  T stub_vround##N(T x, char in, void *c, int r, int p) {                                           \
    VF_ASSERT(c == (void *)&the_ctx && ctx_same() && r >= 2 && r <= (N == 32 ? 8 : 11) && p >= 1 && \
                  p <= (N == 32 ? 23 : 52), "pre: round" #N);                                       \
    return __CPROVER_uninterpreted_vround##N(x, r, p, in ? in_daz != 0 : in_ftz != 0);              \
  }
COMPR(float, 32)
COMPR(double, 64)
#define Vround32 __CPROVER_uninterpreted_vround32
#define Vround64 __CPROVER_uninterpreted_vround64
#else
#define Vround32 vround32
#define Vround64 vround64
#endif
#ifdef VF_INTERNAL
VF_INPUT(uint8_t, isin);
#define HI(H, FN, T, N, R, P)                                                                       \
  void H(void) {                                                                                    \
    void *ctx = setup();                                                                            \
    VF_GET(isin);                                                                                   \
    T x = vf_f##N(in_a), r = FN(x, in_isin != 0, ctx, R, P);                                        \
    T w = vround##N(x, R, P, in_isin ? in_daz != 0 : in_ftz != 0);                                  \
    POST(vf_same##N(r, w), "correct rounding in the virtual format");                               \
    POST(ctx_same(), "the configuration is left as it was");                                        \
    VF_REACH();                                                                                     \
  }
HI(h_i32, _vprec_round_binary32, float, 32, (int)in_r32, (int)in_p32)
HI(h_i64, _vprec_round_binary64, double, 64, (int)in_r64, (int)in_p64)
#endif
#define IN_IB (in_mode == vprecmode_ib || in_mode == vprecmode_full)
#define IN_OB (in_mode == vprecmode_ob || in_mode == vprecmode_full)
/* rounding, observed through the public entry point: x + (-0) is x, exactly */
#define HR(H, FN, T, N)                                                                             \
  void H(void) {                                                                                    \
    void *ctx = setup();                                                                            \
    T x = vf_f##N(in_a), r;                                                                         \
    FN(x, -(T)0, &r, ctx);                                                                          \
    T w = x;                                                                                        \
    if (IN_IB)                                                                                      \
      w = vround##N(w, in_r##N, in_p##N, in_daz != 0);                                              \
    if (IN_OB)                                                                                      \
      w = vround##N(w, in_r##N, in_p##N, in_ftz != 0);                                              \
    POST(vf_same##N(r, w), "correct rounding in the virtual format");                               \
    POST(ctx_same(), "the configuration is left as it was");                                        \
    VF_REACH();                                                                                     \
  }
HR(h_round32, interflop_vprec_add_float, float, 32)
HR(h_round64, interflop_vprec_add_double, double, 64)
/* Absolute error model, threshold 2^q: the result is the multiple of 2^g nearest to x,
 * g = max(q, max(E(x), emin) - P), P the virtual precision (model all) or the format's
 * own (model abs); ties to even, except that 2^(g-1) goes up. A zero may have either sign.
 * Values from 2^emax on, where overflow is decided, are left out. */
#define VABS(T, U, N, W, BIAS)                                                                      \
  static inline bool vabs_ok##N(T x, T got, int r, int P, int q, bool flush) {                      \
    U u = vf_u##N(x), sgn = u & ~(((U)-1) >> 1), mag = u ^ sgn, man = VF_MAN##N(u);                 \
    int e = (int)VF_EXP##N(u), emax = (1 << (r - 1)) - 1, emin = 1 - emax;                          \
    if (VF_SPECIAL##N(u) || mag == 0)                                                               \
      return vf_same##N(x, got);                                                                    \
    bool small = e - BIAS < emin;                                                                   \
    if (small && flush)                                                                             \
      return got == 0;                                                                              \
    int f = e ? e : 1, l = f - BIAS - W; /* |x| = M.2^l */                                          \
    U M = e ? man | ((U)1 << W) : man;                                                              \
    int g = (small ? emin : f - BIAS) - P, k = (q > g ? q : g) - l; /* bits to drop */              \
    if (k > W + 2)                                                                                  \
      k = W + 2;                                                                                    \
    if (k < 0)                                                                                      \
      k = 0;                                                                                        \
    U n = M >> k, rest = M & (((U)1 << k) - 1), half = k ? (U)1 << (k - 1) : 0;                     \
    if (k && (rest > half || (rest == half && ((n & 1) || n == 0))))                                \
      n++;                                                                                          \
    U want = n == 0 ? 0 : ((U)(f - 1) << W) + (n << k), v = vf_u##N(got);                           \
    return want == 0 ? VF_MAG##N(v) == 0 : v == (sgn | want);                                       \
  }
VABS(float, uint32_t, 32, 23, 127)
VABS(double, uint64_t, 64, 52, 1023)
#define HA(H, FN, T, N, W, BIAS)                                                                    \
  void H(void) {                                                                                    \
    void *ctx = setup();                                                                            \
    VF_ASSUME(in_mode == vprecmode_ib || in_mode == vprecmode_ob);                                  \
    T x = vf_f##N(in_a), r;                                                                         \
    VF_ASSUME((int)VF_EXP##N(vf_u##N(x)) - BIAS < (1 << (in_r##N - 1)) - 1 || VF_SPECIAL##N(vf_u##N(x))); \
    FN(x, -(T)0, &r, ctx);                                                                          \
    POST(vabs_ok##N(x, r, in_r##N, the_ctx.relErr ? (int)in_p##N : W, (int)in_abse,                 \
                    IN_IB ? in_daz != 0 : in_ftz != 0),                                             \
         "nearest multiple of the absolute threshold");                                             \
    POST(ctx_same(), "the configuration is left as it was");                                        \
    VF_REACH();                                                                                     \
  }
#ifdef VF_ABS
HA(h_abs32, interflop_vprec_add_float, float, 32, 23, 127)
HA(h_abs64, interflop_vprec_add_double, double, 64, 52, 1023)
#endif
#define RIN(N, x) (IN_IB ? Vround##N(x, in_r##N, in_p##N, in_daz != 0) : (x))
#define ROUT(N, x) (IN_OB ? Vround##N(x, in_r##N, in_p##N, in_ftz != 0) : (x))
#define H2(H, FN, T, N, OP)                                                                         \
  void H(void) {                                                                                    \
    void *ctx = setup();                                                                            \
    T a = vf_f##N(in_a), b = vf_f##N(in_b), r;                                                      \
    FN(a, b, &r, ctx);                                                                              \
    T x = RIN(N, a), y = RIN(N, b), z = x OP y;                                                     \
    POST(vf_same##N(r, ROUT(N, z)), "operands and result rounded as the mode asks");                \
    POST(ctx_same(), "the configuration is left as it was");                                        \
    VF_REACH();                                                                                     \
  }
#define H3(H, FN, T, N, FMA)                                                                        \
  void H(void) {                                                                                    \
    void *ctx = setup();                                                                            \
    T a = vf_f##N(in_a), b = vf_f##N(in_b), c = vf_f##N(in_c), r;                                   \
    FN(a, b, c, &r, ctx);                                                                           \
    T x = RIN(N, a), y = RIN(N, b), v = RIN(N, c), z = FMA(x, y, v);                                \
    POST(vf_same##N(r, ROUT(N, z)), "operands and result rounded as the mode asks");                \
    POST(ctx_same(), "the configuration is left as it was");                                        \
    VF_REACH();                                                                                     \
  }
H2(h_add_float, interflop_vprec_add_float, float, 32, +)
H2(h_sub_float, interflop_vprec_sub_float, float, 32, -)
H2(h_mul_float, interflop_vprec_mul_float, float, 32, *)
H2(h_div_float, interflop_vprec_div_float, float, 32, /)
H2(h_add_double, interflop_vprec_add_double, double, 64, +)
H2(h_sub_double, interflop_vprec_sub_double, double, 64, -)
H2(h_mul_double, interflop_vprec_mul_double, double, 64, *)
H2(h_div_double, interflop_vprec_div_double, double, 64, /)
H3(h_fma_float, interflop_vprec_fma_float, float, 32, vf_fma32)
H3(h_fma_double, interflop_vprec_fma_double, double, 64, vf_fma64)
/* A cast rounds once, straight into the target: the virtual binary32 format when
 * results are rounded (ob, full), the coarser of virtual binary64 and binary32 in ib. */
void h_cast(void) {
  void *ctx = setup();
  double a = vf_f64(in_a);
  float r;
  interflop_vprec_cast_double_to_float(a, &r, ctx);
  double w = a;
  if (IN_OB)
    w = Vround64(a, in_r32, in_p32, in_ftz != 0);
  else if (IN_IB)
    w = Vround64(a, in_r64 < 8 ? in_r64 : 8, in_p64 < 23 ? in_p64 : 23, in_daz != 0);
  POST(vf_same32(r, (float)w), "cast rounds once into the target format");
  POST(ctx_same(), "the configuration is left as it was");
  VF_REACH();
}
#ifdef VF_CLI
#define API(x) interflop_vprec_##x
#define CTX_T vprec_context_t
enum { O_P32, O_P64, O_R32, O_R64, O_PRESET, O_MODE, O_ERR, O_EXP, O_DAZ, O_FTZ };
#define OPTIONS                                                                                     \
  {"precision-binary32", true}, {"precision-binary64", true}, {"range-binary32", true}, {"range-binary64", true}, \
      {"preset", true}, {"mode", true}, {"error-mode", true}, {"max-abs-error-exponent", true}, {"daz", false}, {"ftz", false}
#define WORDS                                                                                       \
  "ieee", "full", "ib", "ob", "rel", "abs", "all", "binary16", "binary32", "bfloat16", "tensorfloat", "fp24", "PXR24", \
      "IEEE", "Full", "iB", "OB", "REL", "aBs", "All", "", "binary", "binary166", "pb"
static bool want(int opt, const char *word, CTX_T *c);
static bool eq(CTX_T *x, CTX_T *y) {
  return x->mode == y->mode && x->binary32_precision == y->binary32_precision && x->binary64_precision == y->binary64_precision &&
         x->binary32_range == y->binary32_range && x->binary64_range == y->binary64_range && x->absErr_exp == y->absErr_exp &&
         x->relErr == y->relErr && x->absErr == y->absErr && x->daz == y->daz && x->ftz == y->ftz;
}
static void defaults(CTX_T *c);
#define VF_USER_CALL
#define VF_TABLE(t)                                                                                 \
  POST(t.interflop_enter_function == interflop_vprec_enter_function &&                              \
           t.interflop_exit_function == interflop_vprec_exit_function && t.interflop_finalize == interflop_vprec_finalize, \
       "table: function instrumentation, finalize");
/* function instrumentation has its own context and options */
struct argp vfi_argp;
void _vfi_alloc_context(void *c) {}
void _vfi_init_context(void *c) {}
void _vfi_init(void *c) {}
void _vfi_finalize(void *c) {}
void _vfi_print_information_header(void *c) {}
void _vfi_enter_function(interflop_function_stack_t *s, void *c, int n, va_list ap) {}
void _vfi_exit_function(interflop_function_stack_t *s, void *c, int n, va_list ap) {}
#include "cli.h"
static void defaults(CTX_T *c) {
  c->binary32_precision = 23;
  c->binary32_range = 8;
  c->binary64_precision = 52;
  c->binary64_range = 11;
  c->absErr_exp = vf_blk.absErr_exp; /* free: without effect in the default error mode */
  c->mode = vprecmode_ob;
  c->relErr = true;
  c->absErr = c->daz = c->ftz = false;
}
static bool in(int lo, int hi) { return (int)in_num >= lo && (int)in_num <= hi; }
static bool want(int opt, const char *w, CTX_T *c) {
  static const int R[6] = {5, 8, 8, 8, 7, 8}, Q[6] = {10, 23, 7, 10, 16, 15};
  switch (opt) {
  case O_P32: VF_INT_ARG(); c->binary32_precision = (int)in_num; return !in_err && in(1, 23);
  case O_P64: VF_INT_ARG(); c->binary64_precision = (int)in_num; return !in_err && in(1, 52);
  case O_R32: VF_INT_ARG(); c->binary32_range = (int)in_num; return !in_err && in(2, 8);
  case O_R64: VF_INT_ARG(); c->binary64_range = (int)in_num; return !in_err && in(2, 11);
  case O_PRESET:
    for (int i = 0; i < 6; i++)
      if (!vf_h_strcmp(w, vf_words[7 + i])) {
        c->binary32_precision = c->binary64_precision = Q[i];
        c->binary32_range = c->binary64_range = R[i];
        return true;
      }
    return false;
  case O_MODE:
    for (int i = 0; i < 4; i++)
      if (!vf_h_strcasecmp(w, vf_words[i])) {
        c->mode = i == 0 ? vprecmode_ieee : i == 1 ? vprecmode_full : i == 2 ? vprecmode_ib : vprecmode_ob;
        return true;
      }
    return false;
  case O_ERR:
    for (int i = 4; i < 7; i++)
      if (!vf_h_strcasecmp(w, vf_words[i])) {
        c->relErr = i != 5;
        c->absErr = i != 4;
        return true;
      }
    return false;
  case O_EXP: VF_INT_ARG(); c->absErr_exp = (int)in_num; return !in_err;
  case O_DAZ: c->daz = true; return true;
  case O_FTZ: c->ftz = true; return true;
  }
  return false;
}
VF_INPUT(uint32_t, id);
void h_user_call(void) {
  CTX_T *ctx = (CTX_T *)setup();
  vf_cli_handlers();
  VF_RANGE(id, 2, 5);
  VF_GET(num);
  VF_INT_ARG();
  CTX_T w = *ctx;
  int v = (int)in_num;
  bool ok = in_id == INTERFLOP_SET_PRECISION_BINARY32   ? (w.binary32_precision = v, in(1, 23))
            : in_id == INTERFLOP_SET_PRECISION_BINARY64 ? (w.binary64_precision = v, in(1, 52))
            : in_id == INTERFLOP_SET_RANGE_BINARY32     ? (w.binary32_range = v, in(2, 8))
                                                        : (w.binary64_range = v, in(2, 11));
  vf_error_ok = !ok;
  vf_user_call(ctx, in_id, v);
  POST(ok, "an unsupported value is refused");
  POST(eq(ctx, &w), "the call sets its parameter and no other");
  VF_REACH();
}
VF_INPUT(uint32_t, cmode);
VF_INPUT(uint32_t, cerr);
VF_INPUT(uint32_t, cpreset);
VF_INPUT(uint64_t, cexp);
VF_INPUT(uint32_t, c32);
VF_INPUT(uint32_t, c64);
VF_INPUT(uint32_t, cr32);
VF_INPUT(uint32_t, cr64);
VF_INPUT(uint8_t, cdaz);
VF_INPUT(uint8_t, cftz);
void h_configure(void) {
  static const int R[6] = {5, 8, 8, 8, 7, 8}, Q[6] = {10, 23, 7, 10, 16, 15};
  CTX_T *ctx = (CTX_T *)setup();
  vf_cli_handlers();
  VF_GET(cexp); VF_GET(c32); VF_GET(c64); VF_GET(cr32); VF_GET(cr64); VF_GET(cdaz); VF_GET(cftz);
  VF_RANGE(cmode, 0, 5);
  VF_RANGE(cerr, 0, 4);
  VF_RANGE(cpreset, 0, 7);
  VF_ASSUME((int64_t)in_cexp == (int)(int64_t)in_cexp);
  bool preset = in_cpreset < 7; /* 7 stands for none */
  vprec_conf_t conf = {.precision_binary32 = in_c32, .range_binary32 = in_cr32, .precision_binary64 = in_c64,
                       .range_binary64 = in_cr64, .mode = (vprec_mode)in_cmode,
                       .preset = preset ? (vprec_preset)in_cpreset : (vprec_preset)-1,
                       .err_mode = (vprec_err_mode)in_cerr, .max_abs_err_exponent = (int64_t)in_cexp, .daz = in_cdaz, .ftz = in_cftz};
  CTX_T w = *ctx;
  int i = in_cpreset < 6 ? in_cpreset : 0;
  w.binary32_precision = preset ? Q[i] : (int)in_c32;
  w.binary64_precision = preset ? Q[i] : (int)in_c64;
  w.binary32_range = preset ? R[i] : (int)in_cr32;
  w.binary64_range = preset ? R[i] : (int)in_cr64;
  w.mode = (vprec_mode)in_cmode;
  w.relErr = in_cerr != vprec_err_mode_abs;
  w.absErr = in_cerr != vprec_err_mode_rel;
  w.absErr_exp = (int)in_cexp;
  w.daz = in_cdaz || w.daz;
  w.ftz = in_cftz || w.ftz;
  bool ok = in_cpreset != 6 && (preset || (in_c32 >= 1 && in_c32 <= 23 && in_c64 >= 1 && in_c64 <= 52 && in_cr32 >= 2 && in_cr32 <= 8 &&
                        in_cr64 >= 2 && in_cr64 <= 11)) && in_cmode <= 3 && in_cerr <= 2;
  vf_error_ok = !ok;
  API(configure)(&conf, ctx);
  POST(ok, "invalid settings are refused");
  POST(eq(ctx, &w), "every setting is the one asked for");
  VF_REACH();
}
#endif
