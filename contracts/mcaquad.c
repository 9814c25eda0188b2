/* MCA (quad) backend. Text under proof: interflop_mca.c, verbatim.
 *
 * The contract is the definition of Monte Carlo Arithmetic: with virtual
 * precision t, inexact(x) = x + 2^(e_x-(t-1)).xi, xi uniform in (-1/2,1/2);
 *   ieee: o(a op b)         pb: o(inexact(a) op inexact(b))
 *   rr:   o(inexact(a op b)) unless a op b is exact at precision t
 *   mca:  both
 * computed in the next wider format and rounded once (o) to the format. */
#include "vf.h"
#include "shim.h"
#include "fma_model.h"
#include "interflop/interflop.h"
#include "interflop_mca.h"
#include "draws.h"
#ifndef VF_NATIVE
#define __builtin_fpclassify(a, b, c, d, e, x) vf_fpclassify_gen(a, b, c, d, e, x)
#endif
#include "interflop/interflop_stdlib.c"
#include "interflop/fma/interflop_fma.c"
#include "fpc_model.h"
#include "interflop_mca.c"
#include "handlers.h"

VF_INPUT(uint64_t, a);
VF_INPUT(uint64_t, b);
VF_INPUT(uint64_t, c);
VF_INPUT(uint32_t, mode);
VF_INPUT(uint32_t, prec32);
VF_INPUT(uint32_t, prec64);
VF_INPUT(uint32_t, abse);
VF_INPUT(uint8_t, rel);
VF_INPUT(uint8_t, abs);
VF_INPUT(uint8_t, daz);
VF_INPUT(uint8_t, ftz);
VF_INPUT(uint8_t, choose);
VF_INPUT(uint8_t, valid);
VF_INPUT(uint64_t, seed);
VF_INPUT(uint32_t, sparsity);

static mcaquad_context_t the_ctx, ctx0;
static int k; /* draws used by the specification */
static void *setup(void) {
  vf_handlers();
  VF_GET(a); VF_GET(b); VF_GET(c); VF_GET(abse); VF_GET(rel);
  VF_GET(abs); VF_GET(daz); VF_GET(ftz); VF_GET(choose); VF_GET(valid); VF_GET(seed); VF_GET(sparsity);
  VF_RANGE(mode, 0, _mcaquad_mode_end_ - 1);
#ifdef VF_MODE
  VF_ASSUME(in_mode == VF_MODE);
#endif
#ifdef VF_ERR /* case split: bit 0 relative, bit 1 absolute error */
  VF_ASSUME((in_rel != 0) == (VF_ERR & 1) && (in_abs != 0) == (VF_ERR >> 1));
#endif
  VF_RANGE(prec32, 1, 1 << 24);
  VF_RANGE(prec64, 1, 1 << 24);
  VF_ASSUME((int)in_abse >= -(1 << 24) && (int)in_abse <= (1 << 24));
  float sp = vf_f32(in_sparsity);
  VF_ASSUME(sp > 0);
#ifdef VF_SPARSE
  VF_ASSUME((sp < 1.0f) == VF_SPARSE);
#endif
  the_ctx.seed = in_seed;
  the_ctx.sparsity = sp;
  the_ctx.binary32_precision = in_prec32;
  the_ctx.binary64_precision = in_prec64;
  the_ctx.absErr_exp = (int)in_abse;
  the_ctx.relErr = in_rel != 0;
  the_ctx.absErr = in_abs != 0;
  the_ctx.daz = in_daz != 0;
  the_ctx.ftz = in_ftz != 0;
  the_ctx.choose_seed = in_choose != 0;
  the_ctx.mode = (mcaquad_mode)in_mode;
  vf_want_choose = in_choose != 0;
  vf_want_seed = in_seed;
  vf_draws_get();
  k = 0;
  ctx0 = the_ctx;
  return &the_ctx;
}
static inline bool ctx_same(void) {
  return the_ctx.mode == ctx0.mode && the_ctx.binary32_precision == ctx0.binary32_precision &&
         the_ctx.binary64_precision == ctx0.binary64_precision && the_ctx.absErr_exp == ctx0.absErr_exp &&
         the_ctx.relErr == ctx0.relErr && the_ctx.absErr == ctx0.absErr && the_ctx.sparsity == ctx0.sparsity &&
         the_ctx.seed == ctx0.seed && the_ctx.choose_seed == ctx0.choose_seed;
}
#define IN_PB (in_mode == mcaquad_mode_pb || in_mode == mcaquad_mode_mca)
#define IN_RR (in_mode == mcaquad_mode_rr || in_mode == mcaquad_mode_mca)
#include "perturb.h"

static inline _Float128 scale128(_Float128 d, int e) { /* d * 2^e, d a centred draw */
  s128 x;
  x.f = d;
  int n = (int)((x.u >> 112) & 0x7fff) + e;
  if (x.f == 0 || n <= 0)
    return 0;
  if (n >= 0x7fff) {
    x.u = (x.f < 0 ? (__uint128_t)1 << 127 : 0) | ((__uint128_t)0x7fff << 112);
    return x.f;
  }
  x.u = (x.u & ~((__uint128_t)0x7fff << 112)) | ((__uint128_t)n << 112);
  return x.f;
}
static inline double scale64(double d, int e) {
  uint64_t u = vf_u64(d);
  int n = (int)((u >> 52) & 0x7ff) + e;
  if (d == 0 || n <= 0)
    return 0;
  if (n >= 0x7ff)
    return vf_f64((d < 0 ? 1ULL << 63 : 0) | (0x7ffULL << 52));
  return vf_f64((u & ~(0x7ffULL << 52)) | ((uint64_t)n << 52));
}
static inline bool plain64(double x) { return x == 0 || VF_EXP64(vf_u64(x)) == 0x7ff; }
static inline bool plain128(_Float128 x) {
  s128 y;
  y.f = x;
  return (y.u << 1) == 0 || ((y.u >> 112) & 0x7fff) == 0x7fff;
}
static inline int e64(double x) { return (int)VF_EXP64(vf_u64(x)) - 1023; }
static inline int e128(_Float128 x) {
  s128 y;
  y.f = x;
  return (int)((y.u >> 112) & 0x7fff) - 16383;
}
static inline bool exact64(double x, int t) { /* representable on t bits */
  return t >= 53 || (VF_MAN64(vf_u64(x)) & ((1ULL << (53 - t)) - 1)) == 0;
}
static inline bool exact128(_Float128 x, int t) {
  s128 y;
  y.f = x;
  return t >= 113 || ((y.u & (((__uint128_t)1 << 112) - 1)) & (((__uint128_t)1 << (113 - t)) - 1)) == 0;
}
#define INEXACT(T, N)                                                                               \
  static inline T inexact##N(T x, int t) {                                                          \
    if (in_mode == mcaquad_mode_ieee || plain##N(x) || (in_mode == mcaquad_mode_rr && exact##N(x, t))) \
      return x;                                                                                     \
    if (vf_f32(in_sparsity) < 1.0f && vf_draw_at(k++) > vf_f32(in_sparsity))                      \
      return x;                                                                                     \
    if (in_rel) {                                                                                   \
      T n = scale##N((T)vf_draw_at(k++) - (T)0.5, e##N(x) - (t - 1));                                   \
      x = x + n;                                                                                    \
    }                                                                                               \
    if (in_abs) {                                                                                   \
      T n = scale##N((T)vf_draw_at(k++) - (T)0.5, (int)in_abse);                                        \
      x = x + n;                                                                                    \
    }                                                                                               \
    return x;                                                                                       \
  }
INEXACT(double, 64)
INEXACT(_Float128, 128)
COMP(double, 64)
COMP(_Float128, 128)
#ifdef VF_INTERNAL
HI(h_inexact64, _mcaquad_inexact_binary64, double, 64, in_prec32, vf_f64, bits64)
HI(h_inexact128, _mcaquad_inexact_binary128, _Float128, 128, in_prec64, rd128, same128)
#endif
H2(h_add_float, interflop_mcaquad_add_float, float, double, 32, 64, in_prec32, +)
H2(h_sub_float, interflop_mcaquad_sub_float, float, double, 32, 64, in_prec32, -)
H2(h_mul_float, interflop_mcaquad_mul_float, float, double, 32, 64, in_prec32, *)
H2(h_div_float, interflop_mcaquad_div_float, float, double, 32, 64, in_prec32, /)
H2(h_add_double, interflop_mcaquad_add_double, double, _Float128, 64, 128, in_prec64, +)
H2(h_sub_double, interflop_mcaquad_sub_double, double, _Float128, 64, 128, in_prec64, -)
H2(h_mul_double, interflop_mcaquad_mul_double, double, _Float128, 64, 128, in_prec64, *)
H2(h_div_double, interflop_mcaquad_div_double, double, _Float128, 64, 128, in_prec64, /)
H3(h_fma_float, interflop_mcaquad_fma_float, float, double, 32, 64, in_prec32, vf_fma64)
H3(h_fma_double, interflop_mcaquad_fma_double, double, _Float128, 64, 128, in_prec64, vf_fma128)
HCAST(interflop_mcaquad_cast_double_to_float, _Float128, 128)
#ifdef VF_CLI
#define API(x) interflop_mcaquad_##x
#define CTX_T mcaquad_context_t
enum { O_P32, O_P64, O_MODE, O_SEED, O_DAZ, O_FTZ, O_SPARSE, O_ERR, O_EXP };
#define OPTIONS                                                                                     \
  {"precision-binary32", true}, {"precision-binary64", true}, {"mode", true}, {"seed", true}, {"daz", false}, \
      {"ftz", false}, {"sparsity", true}, {"error-mode", true}, {"max-abs-error-exponent", true}
#define WORDS "ieee", "mca", "pb", "rr", "rel", "abs", "all", "IEEE", "Mca", "PB", "rR", "REL", "Abs", "aLL", "mc", "mcaa", "", "relative"
static bool want(int opt, const char *word, CTX_T *c);
static bool eq(CTX_T *x, CTX_T *y) {
  return x->seed == y->seed && x->sparsity == y->sparsity && x->binary32_precision == y->binary32_precision &&
         x->binary64_precision == y->binary64_precision && x->absErr_exp == y->absErr_exp && x->relErr == y->relErr &&
         x->absErr == y->absErr && x->daz == y->daz && x->ftz == y->ftz && x->choose_seed == y->choose_seed && x->mode == y->mode;
}
static void defaults(CTX_T *c) {
  c->seed = 0;
  c->sparsity = 1.0f;
  c->binary32_precision = 24;
  c->binary64_precision = 53;
  c->absErr_exp = 112;
  c->relErr = true;
  c->absErr = c->daz = c->ftz = c->choose_seed = false;
  c->mode = mcaquad_mode_mca;
}
#define VF_USER_CALL
#include "cli.h"
static bool want(int opt, const char *w, CTX_T *c) {
  double d = vf_f64(in_dbl);
  switch (opt) {
  case O_P32: VF_INT_ARG(); c->binary32_precision = (int)in_num; return !in_err && (int)in_num > 0;
  case O_P64: VF_INT_ARG(); c->binary64_precision = (int)in_num; return !in_err && (int)in_num > 0;
  case O_MODE:
    for (int i = 0; i < 4; i++)
      if (!vf_h_strcasecmp(w, vf_words[i])) {
        c->mode = i == 0 ? mcaquad_mode_ieee : i == 1 ? mcaquad_mode_mca : i == 2 ? mcaquad_mode_pb : mcaquad_mode_rr;
        return true;
      }
    return false;
  case O_SEED: c->choose_seed = true; c->seed = in_num; return !in_err;
  case O_DAZ: c->daz = true; return true;
  case O_FTZ: c->ftz = true; return true;
  case O_SPARSE: VF_ASSUME(d == d); c->sparsity = (float)d; return !in_err && c->sparsity > 0;
  case O_ERR:
    for (int i = 4; i < 7; i++)
      if (!vf_h_strcasecmp(w, vf_words[i])) {
        c->relErr = i != 5;
        c->absErr = i != 4;
        return true;
      }
    return false;
  case O_EXP: VF_INT_ARG(); c->absErr_exp = (int)in_num; return !in_err;
  }
  return false;
}
VF_INPUT(uint32_t, id);
VF_INPUT(uint32_t, val);
VF_INPUT(uint32_t, ftype);
VF_INPUT(__uint128_t, x);
/* interflop_call: the settings it documents, or one perturbation of a value */
void h_user_call(void) {
  CTX_T *ctx = (CTX_T *)setup();
  vf_cli_handlers();
  VF_RANGE(id, 2, 3);
  VF_GET(val);
  CTX_T w = *ctx;
  *(in_id == INTERFLOP_SET_PRECISION_BINARY32 ? &w.binary32_precision : &w.binary64_precision) = (int)in_val;
  vf_error_ok = (int)in_val < 1;
  vf_user_call(ctx, in_id, (int)in_val);
  POST((int)in_val >= 1, "a precision below one is refused");
  POST(eq(ctx, &w), "the call sets its parameter and no other");
  VF_REACH();
}
void h_user_inexact(void) {
  CTX_T *ctx = (CTX_T *)setup();
  vf_cli_handlers();
  VF_GET(val); VF_GET(x);
  VF_RANGE(ftype, FFLOAT, FQUAD);
  VF_ASSUME((int)in_val >= -(1 << 24) && (int)in_val <= (1 << 24));
  int p = (int)in_val;
  CTX_T w = *ctx;
  vf_error_ok = false;
  union { _Float128 q; double d; float f; __uint128_t u; } v, o;
  v.u = o.u = in_x;
  vf_user_call(ctx, INTERFLOP_INEXACT_ID, (enum FTYPES)in_ftype, (void *)&v, p);
  bool quiet = in_mode == mcaquad_mode_ieee;
  if (in_ftype == FFLOAT) {
    int t = p > 0 ? p : (int)in_prec32 + p;
    double x = o.f;
    if (quiet || plain64(x))
      POST(v.u == o.u, "user perturbation leaves zeros, infinities and NaN");
    else
      POST(vf_same32(v.f, (float)(x + scale64(vf_draw_at(k++) - 0.5, e64(x) - (t - 1)))), "user perturbation of a float");
  } else if (in_ftype == FDOUBLE) {
    int t = p > 0 ? p : (int)in_prec64 + p;
    _Float128 x = o.d;
    if (quiet || plain128(x))
      POST(v.u == o.u, "user perturbation leaves zeros, infinities and NaN");
    else
      POST(vf_same64(v.d, (double)(x + scale128((_Float128)vf_draw_at(k++) - 0.5Q, e128(x) - (t - 1)))), "user perturbation of a double");
  } else {
    _Float128 x = o.q;
    if (quiet || plain128(x))
      POST(v.u == o.u, "user perturbation leaves zeros, infinities and NaN");
    else {
      union { _Float128 q; __uint128_t u; } z;
      z.q = x + scale128((_Float128)vf_draw_at(k++) - 0.5Q, e128(x) - (p - 1));
      POST(v.u == z.u, "user perturbation of a quad");
    }
  }
  POSTS_DRAWS(k)
  POST(eq(ctx, &w), "user perturbation leaves the settings");
  VF_REACH();
}
VF_INPUT(uint32_t, cmode);
VF_INPUT(uint32_t, cerr);
VF_INPUT(uint64_t, cexp);
VF_INPUT(uint32_t, c32);
VF_INPUT(uint32_t, c64);
VF_INPUT(uint32_t, csp);
VF_INPUT(uint8_t, cdaz);
VF_INPUT(uint8_t, cftz);
VF_INPUT(uint64_t, cseed);
void h_configure(void) {
  CTX_T *ctx = (CTX_T *)setup();
  vf_cli_handlers();
  VF_GET(cexp); VF_GET(c32); VF_GET(c64); VF_GET(csp); VF_GET(cdaz); VF_GET(cftz); VF_GET(cseed);
  VF_RANGE(cmode, 0, 5);
  VF_RANGE(cerr, 0, 4);
  float sp = vf_f32(in_csp);
  VF_ASSUME(sp == sp && (int64_t)in_cexp == (int)(int64_t)in_cexp);
  mcaquad_conf_t conf = {.seed = in_cseed, .sparsity = sp, .precision_binary32 = in_c32, .precision_binary64 = in_c64,
                     .mode = (mcaquad_mode)in_cmode, .err_mode = (mcaquad_err_mode)in_cerr, .max_abs_err_exponent = (int64_t)in_cexp,
                     .daz = in_cdaz, .ftz = in_cftz};
  CTX_T w = *ctx;
  w.seed = in_cseed;
  w.choose_seed = true;
  w.sparsity = sp;
  w.binary32_precision = (int)in_c32;
  w.binary64_precision = (int)in_c64;
  w.mode = (mcaquad_mode)in_cmode;
  w.relErr = in_cerr != mcaquad_err_mode_abs;
  w.absErr = in_cerr != mcaquad_err_mode_rel;
  w.absErr_exp = (int)in_cexp;
  w.daz = in_cdaz != 0;
  w.ftz = in_cftz != 0;
  bool ok = sp > 0 && (int)in_c32 > 0 && (int)in_c64 > 0 && in_cmode <= 3 && in_cerr <= 2;
  vf_error_ok = !ok;
  API(configure)(&conf, ctx);
  POST(ok, "invalid settings are refused");
  POST(eq(ctx, &w), "every setting is the one asked for");
  VF_REACH();
}
#endif
