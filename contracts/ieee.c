/* IEEE backend: contracts on the exported entry points; text under proof is
 * /repo/src/backends/interflop-backend-ieee/interflop_ieee.c and
 * /repo/src/interflop-stdlib/fma/interflop_fma.c, included verbatim. */
#include "vf.h"
#include "shim.h"
#include "fma_model.h"
#include "interflop/interflop.h"
#include "interflop_ieee.h"

VF_INPUT(uint64_t, a);
VF_INPUT(uint64_t, b);
VF_INPUT(uint64_t, c);
VF_INPUT(uint64_t, n_add);
VF_INPUT(uint64_t, n_sub);
VF_INPUT(uint64_t, n_mul);
VF_INPUT(uint64_t, n_div);
VF_INPUT(uint64_t, n_fma);
VF_INPUT(uint8_t, debug);
VF_INPUT(uint8_t, debugb);
VF_INPUT(uint8_t, nobn);
VF_INPUT(uint8_t, nl);
VF_INPUT(uint8_t, subn);
VF_INPUT(uint8_t, count);
VF_INPUT(uint32_t, pred);

#define CTX ((ieee_context_t *)context)
#define INC(op) (in_n_##op + VF_W_##op * (in_count ? 1u : 0u))
/* every counter and option is as before the call, except the one of this
 * operation which grows by one exactly when counting is enabled */
static inline bool ctx_ok(ieee_context_t *x, int wa, int ws, int wm, int wd, int wf) {
  uint64_t k = in_count ? 1 : 0;
  return x->add_count == in_n_add + wa * k && x->sub_count == in_n_sub + ws * k &&
         x->mul_count == in_n_mul + wm * k && x->div_count == in_n_div + wd * k &&
         x->fma_count == in_n_fma + wf * k && x->debug == in_debug && x->debug_binary == in_debugb &&
         x->no_backend_name == in_nobn && x->print_new_line == in_nl &&
         x->print_subnormal_normalized == in_subn && x->count_op == in_count;
}

#define BIN(T, FN, OP, SAME, wa, ws, wm, wd)                                                        \
  void FN(const T a, const T b, T *c, void *context) VF_ASSIGNS(*c, *CTX) POSTS_##FN(VF_ENSURES_X);

#define POSTS_interflop_ieee_add_float(X) X("add float equals a+b", vf_same32(*c, a + b)) X("context", ctx_ok(CTX, 1, 0, 0, 0, 0))
#define POSTS_interflop_ieee_sub_float(X) X("sub float equals a-b", vf_same32(*c, a - b)) X("context", ctx_ok(CTX, 0, 1, 0, 0, 0))
#define POSTS_interflop_ieee_mul_float(X) X("mul float equals a*b", vf_same32(*c, a * b)) X("context", ctx_ok(CTX, 0, 0, 1, 0, 0))
#define POSTS_interflop_ieee_div_float(X) X("div float equals a/b", vf_same32(*c, a / b)) X("context", ctx_ok(CTX, 0, 0, 0, 1, 0))
#define POSTS_interflop_ieee_add_double(X) X("add double equals a+b", vf_same64(*c, a + b)) X("context", ctx_ok(CTX, 1, 0, 0, 0, 0))
#define POSTS_interflop_ieee_sub_double(X) X("sub double equals a-b", vf_same64(*c, a - b)) X("context", ctx_ok(CTX, 0, 1, 0, 0, 0))
#define POSTS_interflop_ieee_mul_double(X) X("mul double equals a*b", vf_same64(*c, a * b)) X("context", ctx_ok(CTX, 0, 0, 1, 0, 0))
#define POSTS_interflop_ieee_div_double(X) X("div double equals a/b", vf_same64(*c, a / b)) X("context", ctx_ok(CTX, 0, 0, 0, 1, 0))
#define POSTS_interflop_ieee_cast_double_to_float(X) X("cast equals (float)a", vf_same32(*b, (float)a)) X("context", ctx_ok(CTX, 0, 0, 0, 0, 0))
#define POSTS_interflop_ieee_fma_float(X) X("fma float is the fused a*b+c", vf_same32(*res, vf_fma32(a, b, c))) X("context", ctx_ok(CTX, 0, 0, 0, 0, 1))
#define POSTS_interflop_ieee_fma_double(X) X("fma double is the fused a*b+c", vf_same64(*res, vf_fma64(a, b, c))) X("context", ctx_ok(CTX, 0, 0, 0, 0, 1))

#define DECL2(T, FN) void FN(const T a, const T b, T *c, void *context) VF_ASSIGNS(*c, *CTX) POSTS_##FN(VF_ENSURES_X);
DECL2(float, interflop_ieee_add_float)
DECL2(float, interflop_ieee_sub_float)
DECL2(float, interflop_ieee_mul_float)
DECL2(float, interflop_ieee_div_float)
DECL2(double, interflop_ieee_add_double)
DECL2(double, interflop_ieee_sub_double)
DECL2(double, interflop_ieee_mul_double)
DECL2(double, interflop_ieee_div_double)
void interflop_ieee_cast_double_to_float(double a, float *b, void *context)
    VF_ASSIGNS(*b, *CTX) POSTS_interflop_ieee_cast_double_to_float(VF_ENSURES_X);
void interflop_ieee_fma_float(float a, float b, float c, float *res, void *context)
    VF_ASSIGNS(*res, *CTX) POSTS_interflop_ieee_fma_float(VF_ENSURES_X);
void interflop_ieee_fma_double(double a, double b, double c, double *res, void *context)
    VF_ASSIGNS(*res, *CTX) POSTS_interflop_ieee_fma_double(VF_ENSURES_X);

/* LLVM fcmp semantics of the sixteen predicates (LangRef), as the disjunction of
 * the four mutually exclusive outcomes each predicate accepts:
 * bit0 equal, bit1 greater, bit2 less, bit3 unordered. */
#define CMP_SPEC(T)                                                                                 \
  static inline int cmp_spec_##T(enum FCMP_PREDICATE p, T a, T b) {                                 \
    int o = (a != a || b != b) ? 8 : (a == b) ? 1 : (a > b) ? 2 : 4;                                \
    return (((int)p) & o) != 0;                                                                     \
  }
CMP_SPEC(float)
CMP_SPEC(double)
#define POSTS_interflop_ieee_cmp_float(X) X("comparison follows the predicate", (*c != 0) == cmp_spec_float(p, a, b)) X("context", ctx_ok(CTX, 0, 0, 0, 0, 0))
#define POSTS_interflop_ieee_cmp_double(X) X("comparison follows the predicate", (*c != 0) == cmp_spec_double(p, a, b)) X("context", ctx_ok(CTX, 0, 0, 0, 0, 0))
void interflop_ieee_cmp_float(const enum FCMP_PREDICATE p, const float a, const float b, int *c, void *context)
    VF_ASSIGNS(*c, *CTX) POSTS_interflop_ieee_cmp_float(VF_ENSURES_X);
void interflop_ieee_cmp_double(const enum FCMP_PREDICATE p, const double a, const double b, int *c, void *context)
    VF_ASSIGNS(*c, *CTX) POSTS_interflop_ieee_cmp_double(VF_ENSURES_X);

#include "interflop_ieee.c"
#include "interflop/interflop_stdlib.c"
#include "interflop/fma/interflop_fma.c"
#include "handlers.h"
void register_printf_bit(void) {}

static ieee_context_t the_ctx;
static void *setup(void) {
  vf_handlers();
  VF_GET(a);
  VF_GET(b);
  VF_GET(c);
  VF_GET(n_add);
  VF_GET(n_sub);
  VF_GET(n_mul);
  VF_GET(n_div);
  VF_GET(n_fma);
  VF_GET(debug);
  VF_GET(debugb);
  VF_GET(nobn);
  VF_GET(nl);
  VF_GET(subn);
  VF_GET(count);
  VF_GET(pred);
  the_ctx = (ieee_context_t){.mul_count = in_n_mul, .div_count = in_n_div, .add_count = in_n_add,
                             .sub_count = in_n_sub, .fma_count = in_n_fma, .debug = in_debug,
                             .debug_binary = in_debugb, .no_backend_name = in_nobn, .print_new_line = in_nl,
                             .print_subnormal_normalized = in_subn, .count_op = in_count};
  return &the_ctx;
}
#define H2(T, bits, FN, H)                                                                          \
  void H(void) {                                                                                    \
    void *context = setup();                                                                        \
    T a = vf_f##bits(in_a), b = vf_f##bits(in_b), r, *c = &r;                                       \
    FN(a, b, c, context);                                                                           \
    POSTS_##FN(VF_CHECK_X) VF_REACH();                                                              \
  }
H2(float, 32, interflop_ieee_add_float, h_add_float)
H2(float, 32, interflop_ieee_sub_float, h_sub_float)
H2(float, 32, interflop_ieee_mul_float, h_mul_float)
H2(float, 32, interflop_ieee_div_float, h_div_float)
H2(double, 64, interflop_ieee_add_double, h_add_double)
H2(double, 64, interflop_ieee_sub_double, h_sub_double)
H2(double, 64, interflop_ieee_mul_double, h_mul_double)
H2(double, 64, interflop_ieee_div_double, h_div_double)
void h_cast_double_to_float(void) {
  void *context = setup();
  double a = vf_f64(in_a);
  float r, *b = &r;
  interflop_ieee_cast_double_to_float(a, b, context);
  POSTS_interflop_ieee_cast_double_to_float(VF_CHECK_X) VF_REACH();
}
#define H3(T, bits, FN, H)                                                                          \
  void H(void) {                                                                                    \
    void *context = setup();                                                                        \
    T a = vf_f##bits(in_a), b = vf_f##bits(in_b), c = vf_f##bits(in_c), r, *res = &r;               \
    FN(a, b, c, res, context);                                                                      \
    POSTS_##FN(VF_CHECK_X) VF_REACH();                                                              \
  }
H3(float, 32, interflop_ieee_fma_float, h_fma_float)
H3(double, 64, interflop_ieee_fma_double, h_fma_double)
#define HC(T, bits, FN, H)                                                                          \
  void H(void) {                                                                                    \
    void *context = setup();                                                                        \
    VF_ASSUME(in_pred <= FCMP_TRUE);                                                                \
    enum FCMP_PREDICATE p = (enum FCMP_PREDICATE)in_pred;                                           \
    T a = vf_f##bits(in_a), b = vf_f##bits(in_b);                                                   \
    int r, *c = &r;                                                                                 \
    FN(p, a, b, c, context);                                                                        \
    POSTS_##FN(VF_CHECK_X) VF_REACH();                                                              \
  }
HC(float, 32, interflop_ieee_cmp_float, h_cmp_float)
HC(double, 64, interflop_ieee_cmp_double, h_cmp_double)
#ifdef VF_CLI
#define API(x) interflop_ieee_##x
#define CTX_T ieee_context_t
enum { O_DEBUG, O_BIN, O_NAME, O_NL, O_SUB, O_COUNT };
#define OPTIONS                                                                                     \
  {"debug", false}, {"debug-binary", false}, {"no-backend-name", false}, {"print-new-line", false}, \
      {"print-subnormal-normalized", false}, {"count-op", false}
#define WORDS "x"
static bool want(int opt, const char *word, CTX_T *c);
static bool eq(CTX_T *x, CTX_T *y) {
  return x->debug == y->debug && x->debug_binary == y->debug_binary && x->no_backend_name == y->no_backend_name &&
         x->print_new_line == y->print_new_line && x->print_subnormal_normalized == y->print_subnormal_normalized &&
         x->count_op == y->count_op && x->add_count == y->add_count && x->sub_count == y->sub_count &&
         x->mul_count == y->mul_count && x->div_count == y->div_count && x->fma_count == y->fma_count;
}
static void defaults(CTX_T *c) { *c = (CTX_T){0}; }
#define VF_CMP32 interflop_ieee_cmp_float
#define VF_CMP64 interflop_ieee_cmp_double
#define VF_TABLE(t) POST(t.interflop_finalize == interflop_ieee_finalize, "table: finalize");
#include "cli.h"
static bool want(int opt, const char *w, CTX_T *c) {
  interflop_register_printf_specifier = (interflop_register_printf_specifier_t)vf_h_malloc; /* only tested for presence */
  switch (opt) {
  case O_DEBUG: c->debug = true; return true;
  case O_BIN: c->debug_binary = true; return true;
  case O_NAME: c->no_backend_name = true; return true;
  case O_NL: c->print_new_line = true; return true;
  case O_SUB: c->print_subnormal_normalized = true; return true;
  case O_COUNT: c->count_op = true; return true;
  }
  return false;
}
/* the final report carries the counters under their names */
static int vf_lines;
static bool vf_report_ok = true;
static int vf_h_report(File *s, const char *fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  const char *names[5] = {"\t mul=%ld\n", "\t div=%ld\n", "\t add=%ld\n", "\t sub=%ld\n", "\t fma=%ld\n"};
  uint64_t n[5] = {in_n_mul, in_n_div, in_n_add, in_n_sub, in_n_fma};
  for (int i = 0; i < 5; i++)
    if (vf_streq(fmt, names[i])) {
      vf_lines |= vf_lines & (1 << i) ? 32 : 1 << i; /* each once */
      if (va_arg(ap, uint64_t) != n[i])
        vf_report_ok = false;
      break;
    }
  va_end(ap);
  return 0;
}
void h_finalize(void) {
  void *ctx = setup();
  interflop_fprintf = vf_h_report;
  interflop_ieee_finalize(ctx);
  POST(vf_report_ok && vf_lines == (in_count ? 31 : 0), "operation counts are reported as counted");
  VF_REACH();
}
VF_INPUT(uint8_t, cflags);
void h_configure(void) {
  CTX_T *ctx = (CTX_T *)setup();
  VF_GET(cflags);
#define FL(i) ((in_cflags >> i) & 1)
  ieee_conf_t conf = {.debug = FL(0), .debug_binary = FL(1), .no_backend_name = FL(2), .print_new_line = FL(3),
                      .print_subnormal_normalized = FL(4), .count_op = FL(5)};
  CTX_T w = *ctx;
  w.debug = FL(0);
  w.debug_binary = FL(1);
  w.no_backend_name = FL(2);
  w.print_new_line = FL(3);
  w.print_subnormal_normalized = FL(4);
  w.count_op = FL(5);
  vf_error_ok = false;
  API(configure)(&conf, ctx);
  POST(eq(ctx, &w), "every setting is the one asked for");
  VF_REACH();
}
#endif
