/* MCA integer backend. Text under proof: interflop_mca_int.c, verbatim.
 * inexact(x): the significand of x, as an integer in units of its last place in
 * the wide format, plus a signed random integer of 64-(t+p_exp+1) bits, i.e.
 * noise uniform in 2^(e_x-(t-1)).(-1/2,1/2). Precisions: those the integer
 * scheme can express (the command line accepts the defaults 24 and 53 only). */
#include "vf.h"
#include "shim.h"
#include "fma_model.h"
#include "interflop/interflop.h"
#include "interflop_mca_int.h"
#include "draws.h"
#ifndef VF_NATIVE
#define __builtin_fpclassify(a, b, c, d, e, x) vf_fpclassify_gen(a, b, c, d, e, x)
#endif
#include "interflop/interflop_stdlib.c"
#include "interflop/fma/interflop_fma.c"
#include "fpc_model.h"
#include "interflop_mca_int.c"
#include "handlers.h"

VF_INPUT(uint64_t, a);
VF_INPUT(uint64_t, b);
VF_INPUT(uint64_t, c);
VF_INPUT(uint32_t, mode);
VF_INPUT(uint32_t, prec32);
VF_INPUT(uint32_t, prec64);
VF_INPUT(uint32_t, abse);
VF_INPUT(uint8_t, rel);
VF_INPUT(uint8_t, abs);
VF_INPUT(uint8_t, daz);
VF_INPUT(uint8_t, ftz);
VF_INPUT(uint8_t, choose);
VF_INPUT(uint8_t, valid);
VF_INPUT(uint64_t, seed);
VF_INPUT(uint32_t, sparsity);

static mcaint_context_t the_ctx, ctx0;
static int k; /* draws used by the specification */
static void *setup(void) {
  vf_handlers();
  VF_GET(a); VF_GET(b); VF_GET(c); VF_GET(abse); VF_GET(rel);
  VF_GET(abs); VF_GET(daz); VF_GET(ftz); VF_GET(choose); VF_GET(valid); VF_GET(seed); VF_GET(sparsity);
  VF_RANGE(mode, 0, _mcaint_mode_end_ - 1);
#ifdef VF_MODE
  VF_ASSUME(in_mode == VF_MODE);
#endif
#ifdef VF_ERR /* case split: bit 0 relative, bit 1 absolute error */
  VF_ASSUME((in_rel != 0) == (VF_ERR & 1) && (in_abs != 0) == (VF_ERR >> 1));
#endif
  VF_RANGE(prec32, 1, 52);
  VF_RANGE(prec64, 1, 112);
  VF_ASSUME((int)in_abse >= -(1 << 24) && (int)in_abse <= (1 << 24));
  float sp = vf_f32(in_sparsity);
  VF_ASSUME(sp > 0);
#ifdef VF_SPARSE
  VF_ASSUME((sp < 1.0f) == VF_SPARSE);
#endif
  the_ctx.seed = in_seed;
  the_ctx.sparsity = sp;
  the_ctx.binary32_precision = in_prec32;
  the_ctx.binary64_precision = in_prec64;
  the_ctx.absErr_exp = (int)in_abse;
  the_ctx.relErr = in_rel != 0;
  the_ctx.absErr = in_abs != 0;
  the_ctx.daz = in_daz != 0;
  the_ctx.ftz = in_ftz != 0;
  the_ctx.choose_seed = in_choose != 0;
  the_ctx.mode = (mcaint_mode)in_mode;
  vf_want_choose = in_choose != 0;
  vf_want_seed = in_seed;
  vf_draws_get();
  k = 0;
  ctx0 = the_ctx;
  return &the_ctx;
}
static inline bool ctx_same(void) {
  return the_ctx.mode == ctx0.mode && the_ctx.binary32_precision == ctx0.binary32_precision &&
         the_ctx.binary64_precision == ctx0.binary64_precision && the_ctx.absErr_exp == ctx0.absErr_exp &&
         the_ctx.relErr == ctx0.relErr && the_ctx.absErr == ctx0.absErr && the_ctx.sparsity == ctx0.sparsity &&
         the_ctx.seed == ctx0.seed && the_ctx.choose_seed == ctx0.choose_seed;
}
#define IN_PB (in_mode == mcaint_mode_pb || in_mode == mcaint_mode_mca)
#define IN_RR (in_mode == mcaint_mode_rr || in_mode == mcaint_mode_mca)
#include "perturb.h"

static inline bool plain64(double x) { return x == 0 || VF_EXP64(vf_u64(x)) == 0x7ff; }
static inline bool plain128(_Float128 x) {
  s128 y;
  y.f = x;
  return (y.u << 1) == 0 || ((y.u >> 112) & 0x7fff) == 0x7fff;
}
static inline bool exact64(double x, int t) { /* representable on t bits */
  return t >= 53 || (VF_MAN64(vf_u64(x)) & ((1ULL << (53 - t)) - 1)) == 0;
}
static inline bool exact128(_Float128 x, int t) {
  s128 y;
  y.f = x;
  return t >= 113 || ((y.u & (((__uint128_t)1 << 112) - 1)) & (((__uint128_t)1 << (113 - t)) - 1)) == 0;
}
#define SKIP(N)                                                                                     \
  if (in_mode == mcaint_mode_ieee || plain##N(x) || (in_mode == mcaint_mode_rr && exact##N(x, t)))    \
    return x;                                                                                       \
  if (vf_f32(in_sparsity) < 1.0f && vf_draw_at(k++) > vf_f32(in_sparsity))                          \
    return x;
static inline double inexact64(double x, int t) {
  SKIP(64)
  int64_t n = (int64_t)vf_draw_bits(k++) >> (t + 11);
  return vf_f64(vf_u64(x) + (uint64_t)n);
}
static inline _Float128 inexact128(_Float128 x, int t) {
  SKIP(128)
  __int128 n = (__int128)((__uint128_t)vf_draw_bits(k++) << 64) >> (t + 15);
  s128 y;
  y.f = x;
  y.u += (__uint128_t)n;
  return y.f;
}
COMP(double, 64)
COMP(_Float128, 128)
#ifdef VF_INTERNAL
HI(h_inexact64, _mcaint_inexact_binary64, double, 64, in_prec32, vf_f64, bits64)
HI(h_inexact128, _mcaint_inexact_binary128, _Float128, 128, in_prec64, rd128, same128)
#endif
H2(h_add_float, interflop_mcaint_add_float, float, double, 32, 64, in_prec32, +)
H2(h_sub_float, interflop_mcaint_sub_float, float, double, 32, 64, in_prec32, -)
H2(h_mul_float, interflop_mcaint_mul_float, float, double, 32, 64, in_prec32, *)
H2(h_div_float, interflop_mcaint_div_float, float, double, 32, 64, in_prec32, /)
H2(h_add_double, interflop_mcaint_add_double, double, _Float128, 64, 128, in_prec64, +)
H2(h_sub_double, interflop_mcaint_sub_double, double, _Float128, 64, 128, in_prec64, -)
H2(h_mul_double, interflop_mcaint_mul_double, double, _Float128, 64, 128, in_prec64, *)
H2(h_div_double, interflop_mcaint_div_double, double, _Float128, 64, 128, in_prec64, /)
H3(h_fma_float, interflop_mcaint_fma_float, float, double, 32, 64, in_prec32, vf_fma64)
H3(h_fma_double, interflop_mcaint_fma_double, double, _Float128, 64, 128, in_prec64, vf_fma128)
HCAST(interflop_mcaint_cast_double_to_float, _Float128, 128)
#ifdef VF_CLI
#define API(x) interflop_mcaint_##x
#define CTX_T mcaint_context_t
enum { O_P32, O_P64, O_MODE, O_SEED, O_DAZ, O_FTZ, O_SPARSE };
#define OPTIONS                                                                                     \
  {"precision-binary32", true}, {"precision-binary64", true}, {"mode", true}, {"seed", true}, {"daz", false}, \
      {"ftz", false}, {"sparsity", true}
#define WORDS "ieee", "mca", "pb", "rr", "rel", "abs", "all", "IEEE", "Mca", "PB", "rR", "REL", "Abs", "aLL", "mc", "mcaa", "", "relative"
static bool want(int opt, const char *word, CTX_T *c);
static bool eq(CTX_T *x, CTX_T *y) {
  return x->seed == y->seed && x->sparsity == y->sparsity && x->binary32_precision == y->binary32_precision &&
         x->binary64_precision == y->binary64_precision && x->absErr_exp == y->absErr_exp && x->relErr == y->relErr &&
         x->absErr == y->absErr && x->daz == y->daz && x->ftz == y->ftz && x->choose_seed == y->choose_seed && x->mode == y->mode;
}
static void defaults(CTX_T *c) {
  c->seed = 0;
  c->sparsity = 1.0f;
  c->binary32_precision = 24;
  c->binary64_precision = 53;
  c->absErr_exp = 112;
  c->relErr = true;
  c->absErr = c->daz = c->ftz = c->choose_seed = false;
  c->mode = mcaint_mode_mca;
}
#include "cli.h"
static bool want(int opt, const char *w, CTX_T *c) {
  double d = vf_f64(in_dbl);
  switch (opt) {
  case O_P32: VF_INT_ARG(); c->binary32_precision = (int)in_num; return !in_err && (int)in_num == 24;
  case O_P64: VF_INT_ARG(); c->binary64_precision = (int)in_num; return !in_err && (int)in_num == 53;
  case O_MODE:
    for (int i = 0; i < 4; i++)
      if (!vf_h_strcasecmp(w, vf_words[i])) {
        c->mode = i == 0 ? mcaint_mode_ieee : i == 1 ? mcaint_mode_mca : i == 2 ? mcaint_mode_pb : mcaint_mode_rr;
        return true;
      }
    return false;
  case O_SEED: c->choose_seed = true; c->seed = in_num; return !in_err;
  case O_DAZ: c->daz = true; return true;
  case O_FTZ: c->ftz = true; return true;
  case O_SPARSE: VF_ASSUME(d == d); c->sparsity = (float)d; return !in_err && c->sparsity > 0 && c->sparsity <= 1;
  }
  return false;
}
VF_INPUT(uint32_t, cmode);
VF_INPUT(uint32_t, cerr);
VF_INPUT(uint64_t, cexp);
VF_INPUT(uint32_t, c32);
VF_INPUT(uint32_t, c64);
VF_INPUT(uint32_t, csp);
VF_INPUT(uint8_t, cdaz);
VF_INPUT(uint8_t, cftz);
VF_INPUT(uint64_t, cseed);
void h_configure(void) {
  CTX_T *ctx = (CTX_T *)setup();
  vf_cli_handlers();
  VF_GET(cexp); VF_GET(c32); VF_GET(c64); VF_GET(csp); VF_GET(cdaz); VF_GET(cftz); VF_GET(cseed);
  VF_RANGE(cmode, 0, 5);
  VF_RANGE(cerr, 0, 4);
  float sp = vf_f32(in_csp);
  VF_ASSUME(sp == sp && (int64_t)in_cexp == (int)(int64_t)in_cexp);
  mcaint_conf_t conf = {.seed = in_cseed, .sparsity = sp, .precision_binary32 = in_c32, .precision_binary64 = in_c64,
                     .mode = (mcaint_mode)in_cmode, .err_mode = (mcaint_err_mode)in_cerr, .max_abs_err_exponent = (int64_t)in_cexp,
                     .daz = in_cdaz, .ftz = in_cftz};
  CTX_T w = *ctx;
  w.seed = in_cseed;
  w.choose_seed = true;
  w.sparsity = sp;
  w.binary32_precision = (int)in_c32;
  w.binary64_precision = (int)in_c64;
  w.mode = (mcaint_mode)in_cmode;
  w.relErr = in_cerr != mcaint_err_mode_abs;
  w.absErr = in_cerr != mcaint_err_mode_rel;
  if (w.absErr)
    w.absErr_exp = (int)in_cexp;
  w.daz = in_cdaz != 0;
  w.ftz = in_cftz != 0;
  bool ok = sp > 0 && (int)in_c32 > 0 && (int)in_c64 > 0 && in_cmode <= 3 && in_cerr <= 2;
  vf_error_ok = !ok;
  API(configure)(&conf, ctx);
  POST(ok, "invalid settings are refused");
  POST(eq(ctx, &w), "every setting is the one asked for");
  VF_REACH();
}
#endif
