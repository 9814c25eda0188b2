/* Cancellation backend. Text under proof: interflop_cancellation.c, verbatim.
 * c = max(E(a), E(b)) - E(a op b), E the unbiased exponent field. When c reaches
 * the tolerance, the sum or difference z becomes z + xi.2^(E(z)-(c-1)), xi the next
 * draw minus 1/2; otherwise, and for every other operation, the result is the native one. */
#include "vf.h"
#include "shim.h"
#include "fma_model.h"
#include "interflop/interflop.h"
#include "interflop_cancellation.h"
#include "draws.h"
#ifndef VF_NATIVE
#define __builtin_fpclassify(a, b, c, d, e, x) vf_fpclassify_gen(a, b, c, d, e, x)
#endif
#include "interflop/interflop_stdlib.c"
#include "interflop/fma/interflop_fma.c"
#include "fpc_model.h"
#include "interflop_cancellation.c"
#include "handlers.h"

VF_INPUT(uint64_t, a);
VF_INPUT(uint64_t, b);
VF_INPUT(uint64_t, c);
VF_INPUT(uint32_t, tol);
VF_INPUT(uint32_t, e);
VF_INPUT(uint8_t, warn);
VF_INPUT(uint8_t, choose);
VF_INPUT(uint64_t, seed);
static cancellation_context_t the_ctx, ctx0;
static void *setup(void) {
  vf_handlers();
  VF_GET(a); VF_GET(b); VF_GET(c); VF_GET(warn); VF_GET(choose); VF_GET(seed);
  VF_RANGE(tol, 0, 0x7fffffff);
  the_ctx.seed = in_seed;
  the_ctx.tolerance = (int)in_tol;
  the_ctx.choose_seed = in_choose != 0;
  the_ctx.warning = in_warn != 0;
  vf_want_choose = in_choose != 0;
  vf_want_seed = in_seed;
  vf_draws_get();
  vf_infos = 0;
  ctx0 = the_ctx;
  return &the_ctx;
}
#define SAME_CTX()                                                                                  \
  POST(the_ctx.seed == ctx0.seed && the_ctx.tolerance == ctx0.tolerance &&                          \
           the_ctx.choose_seed == ctx0.choose_seed && the_ctx.warning == ctx0.warning,              \
       "the configuration is left as it was");
/* xi.2^e; a noise below the normal range is lost */
static inline double noise(double xi, int e) {
  int f = (int)VF_EXP64(vf_u64(xi)) + e;
  if (xi == 0 || f <= 0)
    return 0;
  return vf_f64((vf_u64(xi) & ~(0x7ffULL << 52)) | ((uint64_t)(f & 0x7ff) << 52)); /* lemma h_range: f < 0x7ff */
}
/* the scaled noise is always finite: |xi| < 1/2, and e = E(z)-(c-1) with c >= 0 */
void h_range(void) {
  setup();
  double xi = vf_draw_at(0) - 0.5;
  VF_RANGE(e, 0, 2047);
  int e = (int)in_e - 1023;
  POST(xi == 0 || (int)VF_EXP64(vf_u64(xi)) + e + 1 < 0x7ff, "noise is finite");
  VF_REACH();
}
#define HSUM(H, FN, T, NB, BIAS, OP)                                                                \
  void H(void) {                                                                                    \
    void *ctx = setup();                                                                            \
    T a = vf_f##NB(in_a), b = vf_f##NB(in_b), r;                                                    \
    FN(a, b, &r, ctx);                                                                              \
    T z = a OP b;                                                                                   \
    int ea = (int)VF_EXP##NB(vf_u##NB(a)) - BIAS, eb = (int)VF_EXP##NB(vf_u##NB(b)) - BIAS,         \
        ez = (int)VF_EXP##NB(vf_u##NB(z)) - BIAS, c = (ea > eb ? ea : eb) - ez;                     \
    bool hit = c >= (int)in_tol;                                                                    \
    T w = hit ? (T)(z + noise(vf_draw_at(0) - 0.5, ez - (c - 1))) : z;                              \
    POST(vf_same##NB(r, w), "noise of the cancelled magnitude, exactly from the tolerance on");     \
    POST(vf_infos == (hit && in_warn != 0), "a cancellation is reported when, and only when, asked"); \
    POSTS_DRAWS(hit ? 1 : 0)                                                                        \
    SAME_CTX()                                                                                      \
    VF_REACH();                                                                                     \
  }
#define HPLAIN(H, T, NB, CALL, WANT)                                                                \
  void H(void) {                                                                                    \
    void *ctx = setup();                                                                            \
    T a = vf_f##NB(in_a), b = vf_f##NB(in_b), c = vf_f##NB(in_c), r;                                \
    CALL;                                                                                           \
    POST(vf_same##NB(r, (T)(WANT)), "operations that cannot cancel are exact");                     \
    POST(vf_infos == 0, "nothing reported");                                                        \
    POSTS_DRAWS(0)                                                                                  \
    SAME_CTX()                                                                                      \
    VF_REACH();                                                                                     \
  }
HSUM(h_add_float, interflop_cancellation_add_float, float, 32, 127, +)
HSUM(h_sub_float, interflop_cancellation_sub_float, float, 32, 127, -)
HSUM(h_add_double, interflop_cancellation_add_double, double, 64, 1023, +)
HSUM(h_sub_double, interflop_cancellation_sub_double, double, 64, 1023, -)
HPLAIN(h_mul_float, float, 32, interflop_cancellation_mul_float(a, b, &r, ctx), a * b)
HPLAIN(h_div_float, float, 32, interflop_cancellation_div_float(a, b, &r, ctx), a / b)
HPLAIN(h_mul_double, double, 64, interflop_cancellation_mul_double(a, b, &r, ctx), a * b)
HPLAIN(h_div_double, double, 64, interflop_cancellation_div_double(a, b, &r, ctx), a / b)
HPLAIN(h_fma_float, float, 32, interflop_cancellation_fma_float(a, b, c, &r, ctx), vf_fma32(a, b, c))
HPLAIN(h_fma_double, double, 64, interflop_cancellation_fma_double(a, b, c, &r, ctx), vf_fma64(a, b, c))
HPLAIN(h_cast, float, 32, interflop_cancellation_cast_double_to_float(vf_f64(in_a), &r, ctx), vf_f64(in_a))
#ifdef VF_CLI
#define API(x) interflop_cancellation_##x
#define CTX_T cancellation_context_t
enum { O_TOL, O_WARN, O_SEED };
#define OPTIONS {"tolerance", true}, {"warning", true}, {"seed", true}
#define WORDS "1", "true"
static bool want(int opt, const char *word, CTX_T *c);
static bool eq(CTX_T *x, CTX_T *y) {
  return x->seed == y->seed && x->tolerance == y->tolerance && x->choose_seed == y->choose_seed && x->warning == y->warning;
}
static void defaults(CTX_T *c) {
  c->seed = 0;
  c->tolerance = 1;
  c->choose_seed = c->warning = false;
}
#include "cli.h"
static bool want(int opt, const char *w, CTX_T *c) {
  switch (opt) {
  case O_TOL: VF_INT_ARG(); c->tolerance = (int)in_num; return !in_err && (int)in_num >= 0;
  case O_WARN: c->warning = true; return true;
  case O_SEED: c->choose_seed = true; c->seed = in_num; return !in_err;
  }
  return false;
}
VF_INPUT(uint32_t, ctol);
VF_INPUT(uint8_t, cwarn);
VF_INPUT(uint64_t, cseed);
void h_configure(void) {
  CTX_T *ctx = (CTX_T *)setup();
  vf_cli_handlers();
  VF_GET(ctol); VF_GET(cwarn); VF_GET(cseed);
  cancellation_conf_t conf = {.seed = in_cseed, .tolerance = (int)in_ctol, .warning = in_cwarn != 0};
  CTX_T w = {.seed = in_cseed, .tolerance = (int)in_ctol, .choose_seed = true, .warning = in_cwarn != 0};
  vf_error_ok = (int)in_ctol < 0;
  API(configure)(&conf, ctx);
  POST(eq(ctx, &w), "every setting is the one asked for");
  VF_REACH();
}
#endif
