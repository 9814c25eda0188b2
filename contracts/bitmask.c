/* Bitmask backend. Text under proof: interflop_bitmask.c, verbatim, configured
 * through its own configure entry point.
 * With virtual precision t, the significant bits of x after the t-th are set to
 * zero, set to one, or flipped at random; mode ib: operands, ob: result unless
 * it is representable on t bits, full: both, ieee: none. */
#include "vf.h"
#include "shim.h"
#include "fma_model.h"
#include "interflop/interflop.h"
#include "interflop_bitmask.h"
#include "draws.h"
#ifndef VF_NATIVE
#define __builtin_fpclassify(a, b, c, d, e, x) vf_fpclassify_gen(a, b, c, d, e, x)
#endif
#include "interflop/interflop_stdlib.c"
#include "interflop/fma/interflop_fma.c"
#include "fpc_model.h"
#include "interflop_bitmask.c"
#include "handlers.h"

VF_INPUT(uint64_t, a);
VF_INPUT(uint64_t, b);
VF_INPUT(uint64_t, c);
VF_INPUT(uint32_t, mode);
VF_INPUT(uint32_t, oper);
VF_INPUT(uint32_t, prec32);
VF_INPUT(uint32_t, prec64);
VF_INPUT(uint8_t, daz);
VF_INPUT(uint8_t, ftz);
VF_INPUT(uint64_t, seed);

#ifdef VF_CLI
#define API(x) interflop_bitmask_##x
#define CTX_T bitmask_context_t
enum { O_P32, O_P64, O_MODE, O_OPER, O_SEED, O_DAZ, O_FTZ };
#define OPTIONS                                                                                     \
  {"precision-binary32", true}, {"precision-binary64", true}, {"mode", true}, {"operator", true}, {"seed", true}, \
      {"daz", false}, {"ftz", false}
#define WORDS "ieee", "full", "ib", "ob", "zero", "one", "rand", "IEEE", "Full", "iB", "OB", "ZERO", "One", "ranD", "", "zer", "ones", "pb"
static bool want(int opt, const char *word, CTX_T *c);
static bool eq(CTX_T *x, CTX_T *y) {
  return x->seed == y->seed && x->binary32_precision == y->binary32_precision && x->binary64_precision == y->binary64_precision &&
         x->operator== y->operator&& x->mode == y->mode && x->choose_seed == y->choose_seed && x->daz == y->daz && x->ftz == y->ftz;
}
static void defaults(CTX_T *c) {
  c->seed = 0;
  c->binary32_precision = 24;
  c->binary64_precision = 53;
  c->operator= bitmask_operator_zero;
  c->mode = bitmask_mode_ob;
  c->choose_seed = c->daz = c->ftz = false;
}
#include "cli.h"
static bool want(int opt, const char *w, CTX_T *c) {
  switch (opt) {
  case O_P32: VF_INT_ARG(); c->binary32_precision = (int)in_num; return !in_err && (int)in_num > 0;
  case O_P64: VF_INT_ARG(); c->binary64_precision = (int)in_num; return !in_err && (int)in_num > 0;
  case O_MODE:
    for (int i = 0; i < 4; i++)
      if (!vf_h_strcasecmp(w, vf_words[i])) {
        c->mode = i == 0 ? bitmask_mode_ieee : i == 1 ? bitmask_mode_full : i == 2 ? bitmask_mode_ib : bitmask_mode_ob;
        return true;
      }
    return false;
  case O_OPER:
    for (int i = 4; i < 7; i++)
      if (!vf_h_strcasecmp(w, vf_words[i])) {
        c->operator= i == 4 ? bitmask_operator_zero : i == 5 ? bitmask_operator_one : bitmask_operator_rand;
        return true;
      }
    return false;
  case O_SEED: c->choose_seed = true; c->seed = in_num; return !in_err;
  case O_DAZ: c->daz = true; return true;
  case O_FTZ: c->ftz = true; return true;
  }
  return false;
}
#endif
#ifdef VF_VIA /* configured by the command line: from the defaults, with or without each precision option */
VF_INPUT(uint8_t, has32);
VF_INPUT(uint8_t, has64);
static void run_cli(CTX_T *ctx, int opt, int n) {
  char *argv[2] = {(char *)"backend", (char *)"0"};
  in_opt = opt;
  in_num = n;
  in_err = 0;
  API(cli)(2, argv, ctx);
}
static void *via(void) {
  void *ctx = 0;
  vf_cli_handlers();
  API(pre_init)(vf_h_panic, 0, &ctx);
  VF_GET(has32); VF_GET(has64);
  if (in_has32)
    run_cli((CTX_T *)ctx, O_P32, in_prec32);
  if (in_has64)
    run_cli((CTX_T *)ctx, O_P64, in_prec64);
  CTX_T *c = (CTX_T *)ctx;
  c->mode = (bitmask_mode)in_mode;
  c->operator= (bitmask_operator) in_oper;
  c->daz = in_daz != 0;
  c->ftz = in_ftz != 0;
  c->choose_seed = true;
  c->seed = in_seed;
  /* an absent option stands for the documented default */
  in_prec32 = in_has32 ? in_prec32 : 24;
  in_prec64 = in_has64 ? in_prec64 : 53;
  return ctx;
}
#endif
static bitmask_context_t the_ctx, ctx0;
static int k; /* draws used by the specification */
static void *setup(void) {
  vf_handlers();
  VF_GET(a); VF_GET(b); VF_GET(c);
  VF_GET(daz); VF_GET(ftz); VF_GET(seed);
  VF_RANGE(mode, 0, _bitmask_mode_end_ - 1);
  VF_RANGE(oper, 0, _bitmask_operator_end_ - 1);
  VF_RANGE(prec32, 1, 1 << 24);
  VF_RANGE(prec64, 1, 1 << 24);
  bitmask_conf_t conf = {0};
  conf.seed = in_seed;
  conf.binary32_precision = in_prec32;
  conf.binary64_precision = in_prec64;
  conf.operator= (bitmask_operator) in_oper;
  conf.mode = (bitmask_mode)in_mode;
  conf.choose_seed = true;
  conf.daz = in_daz != 0;
  conf.ftz = in_ftz != 0;
#ifndef VF_VIA
  interflop_bitmask_configure(&conf, &the_ctx);
#endif
  vf_want_choose = true;
  vf_want_seed = in_seed;
  vf_draws_get();
  k = 0;
  ctx0 = the_ctx;
#ifdef VF_VIA
  binary32_bitmask = FLOAT_MASK_ONE; /* as at load time */
  binary64_bitmask = DOUBLE_MASK_ONE;
  return via();
#endif
  return &the_ctx;
}
static inline bool ctx_same(void) {
  return the_ctx.mode == ctx0.mode && the_ctx.binary32_precision == ctx0.binary32_precision &&
         the_ctx.binary64_precision == ctx0.binary64_precision && the_ctx.operator== ctx0.operator&&
         the_ctx.seed == ctx0.seed && the_ctx.choose_seed == ctx0.choose_seed;
}
#define IN_PB (in_mode == bitmask_mode_ib || in_mode == bitmask_mode_full)
#define IN_RR (in_mode == bitmask_mode_ob || in_mode == bitmask_mode_full)
#define ARGS(T) void *c, T *x
#define CALLX(F, p, c) F(c, p)
#include "perturb.h"

/* number of significant bits of x beyond the t leading ones: P the precision of
 * the format, m the mantissa field */
static inline int msb(uint64_t m) { /* position of the leading one */
  int p = 0;
  if (m >> 32) { p += 32; m >>= 32; }
  if (m >> 16) { p += 16; m >>= 16; }
  if (m >> 8) { p += 8; m >>= 8; }
  if (m >> 4) { p += 4; m >>= 4; }
  if (m >> 2) { p += 2; m >>= 2; }
  if (m >> 1) p += 1;
  return p;
}
static inline int extra(bool sub, uint64_t m, int P, int t) {
  int n = (sub ? msb(m) + 1 : P) - t;
  return n > 0 ? n : 0;
}
#define INEXACT(T, U, N, P)                                                                         \
  static inline T inexact##N(T x, int t) {                                                          \
    U u = vf_u##N(x), mag = u & (((U)-1) >> 1), man = VF_MAN##N(u);                                 \
    if (in_mode == bitmask_mode_ieee || mag == 0 || VF_SPECIAL##N(u))                               \
      return x;                                                                                     \
    if (in_mode == bitmask_mode_ob && (t >= P || (man & (((U)1 << (P - t)) - 1)) == 0))               \
      return x;                                                                                     \
    U low = ((U)1 << extra(VF_SUB##N(u), man, P, t)) - 1;                                           \
    if (in_oper == bitmask_operator_zero)                                                           \
      u &= ~low;                                                                                    \
    else if (in_oper == bitmask_operator_one)                                                       \
      u |= low;                                                                                     \
    else                                                                                            \
      u ^= low & (U)vf_draw_bits(k++);                                                              \
    return vf_f##N(u);                                                                              \
  }
INEXACT(float, uint32_t, 32, 24)
INEXACT(double, uint64_t, 64, 53)
COMP(float, 32)
COMP(double, 64)
#ifdef VF_INTERNAL
HI(h_inexact32, _inexact_binary32, float, 32, in_prec32, vf_f32, bits32)
HI(h_inexact64, _inexact_binary64, double, 64, in_prec64, vf_f64, bits64)
#endif
H2(h_add_float, interflop_bitmask_add_float, float, float, 32, 32, in_prec32, +)
H2(h_sub_float, interflop_bitmask_sub_float, float, float, 32, 32, in_prec32, -)
H2(h_mul_float, interflop_bitmask_mul_float, float, float, 32, 32, in_prec32, *)
H2(h_div_float, interflop_bitmask_div_float, float, float, 32, 32, in_prec32, /)
H2(h_add_double, interflop_bitmask_add_double, double, double, 64, 64, in_prec64, +)
H2(h_sub_double, interflop_bitmask_sub_double, double, double, 64, 64, in_prec64, -)
H2(h_mul_double, interflop_bitmask_mul_double, double, double, 64, 64, in_prec64, *)
H2(h_div_double, interflop_bitmask_div_double, double, double, 64, 64, in_prec64, /)
H3(h_fma_float, interflop_bitmask_fma_float, float, float, 32, 32, in_prec32, vf_fma32)
H3(h_fma_double, interflop_bitmask_fma_double, double, double, 64, 64, in_prec64, vf_fma64)
HCAST(interflop_bitmask_cast_double_to_float, double, 64)
#ifdef VF_CLI
VF_INPUT(uint32_t, cmode);
VF_INPUT(uint32_t, coper);
VF_INPUT(uint32_t, c32);
VF_INPUT(uint32_t, c64);
VF_INPUT(uint8_t, cdaz);
VF_INPUT(uint8_t, cftz);
VF_INPUT(uint64_t, cseed);
void h_configure(void) {
  CTX_T *ctx = (CTX_T *)setup();
  vf_cli_handlers();
  VF_GET(c32); VF_GET(c64); VF_GET(cdaz); VF_GET(cftz); VF_GET(cseed);
  VF_RANGE(cmode, 0, 5);
  VF_RANGE(coper, 0, 4);
  bitmask_conf_t conf = {.seed = in_cseed, .binary32_precision = (int)in_c32, .binary64_precision = (int)in_c64,
                         .operator= (bitmask_operator) in_coper, .mode = (bitmask_mode)in_cmode, .choose_seed = true,
                         .daz = in_cdaz != 0, .ftz = in_cftz != 0};
  CTX_T w = conf;
  bool ok = (int)in_c32 > 0 && (int)in_c64 > 0 && in_cmode <= 3 && in_coper <= 2;
  vf_error_ok = !ok;
  API(configure)(&conf, ctx);
  POST(ok, "invalid settings are refused");
  POST(eq(ctx, &w), "every setting is the one asked for");
  VF_REACH();
}
#endif
