/* The runtime linked into every instrumented program. Text under proof:
 * src/vfcwrapper/main.c.in (what configure substitutes in it is the path of addr2line),
 * verbatim; -DVF_FUNC adds src/vfcwrapper/funcinstr.c, as the makefile concatenates them.
 * Backends are stand-ins: entry points that record the call and store an arbitrary value. */
#include "vf.h"
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <math.h>
#include <errno.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <err.h>
#include <argp.h>
#include <printf.h>
#include <strings.h>
#include <sys/time.h>
#include <unistd.h>
#include <sys/types.h>
#include <sys/wait.h>
#define constructor(n) unused
#define destructor(n) unused
/* the address of the instrumented instruction: any */
VF_INPUT(uint64_t, addr);
#define __builtin_return_address(n) ((void *)in_addr)
#ifndef VF_NATIVE
#undef NAN
#define NAN (0.0f / 0.0f)
#endif
#include "va_fresh.h"
#include "wrapper_env.h"
#include "main.c.in"
#undef constructor
#undef destructor

/* ---- backends ---------------------------------------------------------- */
enum { ADD, SUB, MUL, DIV, FMA, CMP, CAST, USER, ENTER, EXIT, FINAL };
typedef struct { unsigned idx; } slot_t;
static slot_t slot[MAX_BACKENDS];
VF_INPUT(uint8_t, n);         /* backends loaded */
VF_INPUT(uint16_t, mask);     /* those that implement the operation called */
VF_INPUT(uint16_t, mask2);    /* those that implement any other */
VF_INPUT(uint8_t, wi);        /* a backend, any */
VF_INPUT(uint64_t, val);      /* what the last backend stores */
static int op_id, op_bits;    /* the operation called */
static uint64_t wa, wb, wc;   /* its operands */
static unsigned hits, calls, others, last_call;
static bool in_order, any_call;
static uint64_t vf_any64(unsigned i) {
#ifdef VF_NATIVE
  return 0x9e3779b97f4a7c15ULL * (i + 1) ^ in_val;
#else
  uint64_t r;
  return r;
#endif
}
static int last_impl(void) {
  int l = -1;
  for (int i = 0; i < MAX_BACKENDS; i++)
    if (i < in_n && (in_mask >> i & 1))
      l = i;
  return l;
}
static uint64_t record(int op, int bits, uint64_t a, uint64_t b, uint64_t c, void *ctx) {
  unsigned i = ((slot_t *)ctx)->idx;
  if (op != op_id || bits != op_bits) {
    others++;
    return vf_any64(i);
  }
  bool same = a == wa && b == wb && c == wc;
  if (any_call && i <= last_call)
    in_order = false;
  any_call = true;
  last_call = i;
  if (i == in_wi) {
    calls++;
    hits += same;
  }
  return (same && (int)i == last_impl()) ? in_val : vf_any64(i);
}
#define S2(T, NB, NAME, OP)                                                                         \
  static void s_##NAME##_##T(T a, T b, T *c, void *ctx) {                                           \
    *c = vf_f##NB(record(OP, NB, vf_u##NB(a), vf_u##NB(b), 0, ctx));                                \
  }
#define S3(T, NB)                                                                                   \
  static void s_fma_##T(T a, T b, T c, T *d, void *ctx) {                                           \
    *d = vf_f##NB(record(FMA, NB, vf_u##NB(a), vf_u##NB(b), vf_u##NB(c), ctx));                     \
  }
#define SC(T, NB)                                                                                   \
  static void s_cmp_##T(enum FCMP_PREDICATE p, T a, T b, int *c, void *ctx) {                       \
    *c = (int)record(CMP, NB, vf_u##NB(a), vf_u##NB(b), (uint64_t)p, ctx);                          \
  }
#define FOR2(X, T, NB) X(T, NB, add, ADD) X(T, NB, sub, SUB) X(T, NB, mul, MUL) X(T, NB, div, DIV)
FOR2(S2, float, 32)
FOR2(S2, double, 64)
S3(float, 32)
S3(double, 64)
SC(float, 32)
SC(double, 64)
static void s_cast(double a, float *b, void *ctx) { *b = vf_f32(record(CAST, 64, vf_u64(a), 0, 0, ctx)); }
/* user calls: the id and the arguments, read as interflop.h types them */
static unsigned ucalls[MAX_BACKENDS], fcalls[MAX_BACKENDS];
VF_INPUT(uint32_t, id);
VF_INPUT(uint32_t, x1);
VF_INPUT(uint64_t, x2);
VF_INPUT(uint32_t, x3);
static bool args_ok;
static void s_user(void *ctx, interflop_call_id id, va_list ap) {
  unsigned i = ((slot_t *)ctx)->idx;
  if (calls != 0 && i <= last_call)
    in_order = false;
  calls++;
  last_call = i;
  ucalls[i]++;
  VA_READ();
  int a = va_arg(ap, int);
  void *b = va_arg(ap, void *);
  double c = va_arg(ap, double);
  if ((uint32_t)id != in_id || (uint32_t)a != in_x1 || (uint64_t)b != in_x2 || vf_u64(c) != ((uint64_t)in_x3))
    args_ok = false;
}
static void s_final(void *ctx) { fcalls[((slot_t *)ctx)->idx]++; }

static struct interflop_backend_interface_t before[MAX_BACKENDS];
#define IMPL(OP, NB, i) (((OP) == op_id && (NB) == op_bits ? in_mask : in_mask2) >> (i) & 1)
#define SET2(T, NB, NAME, OP) backends[i].interflop_##NAME##_##T = IMPL(OP, NB, i) ? s_##NAME##_##T : NULL;
static void setup(int op, int bits) {
  op_id = op;
  op_bits = bits;
  VF_RANGE(n, 1, MAX_BACKENDS);
#if VF_DD == 1
  in_mask = in_mask2 = 65535; /* every loaded backend implements everything, and none is to be called */
#else
  VF_RANGE(mask, 0, 65535);
  VF_RANGE(mask2, 0, 65535);
#endif
  VF_RANGE(wi, 0, MAX_BACKENDS - 1);
  VF_GET(val);
  VF_GET(addr);
  VF_ASSUME(in_addr > 1); /* an address in the program */
  loaded_backends = in_n;
  hits = calls = others = 0;
  in_order = true;
  any_call = false;
#ifdef VF_COMP
  contexts[in_wi] = &slot[in_wi]; /* only looked at by the scalar operation, here by its contract */
  return;
#endif
  for (int i = 0; i < MAX_BACKENDS; i++) {
    slot[i].idx = i;
    contexts[i] = &slot[i];
    FOR2(SET2, float, 32)
    FOR2(SET2, double, 64)
    SET2(float, 32, fma, FMA)
    SET2(double, 64, fma, FMA)
    SET2(float, 32, cmp, CMP)
    SET2(double, 64, cmp, CMP)
    backends[i].interflop_cast_double_to_float = IMPL(CAST, 64, i) ? s_cast : NULL;
    backends[i].interflop_user_call = IMPL(USER, 0, i) ? s_user : NULL;
    backends[i].interflop_finalize = IMPL(FINAL, 0, i) ? s_final : NULL;
    backends[i].interflop_enter_function = NULL;
    backends[i].interflop_exit_function = NULL;
    before[i] = backends[i];
    ucalls[i] = fcalls[i] = 0;
  }
}
static bool implements(int i) { return i < in_n && (in_mask >> i & 1); }
/* a program starts only when a loaded backend implements the operation (contract of vfc_init) */
#define SOME() VF_ASSUME(last_impl() >= 0)
#define EQ2(T, NB, NAME, OP) &&x->interflop_##NAME##_##T == y->interflop_##NAME##_##T
static bool same_table(struct interflop_backend_interface_t *x, struct interflop_backend_interface_t *y) {
  return true FOR2(EQ2, float, 32) FOR2(EQ2, double, 64) EQ2(float, 32, fma, FMA) EQ2(double, 64, fma, FMA)
      EQ2(float, 32, cmp, CMP) EQ2(double, 64, cmp, CMP) &&
         x->interflop_cast_double_to_float == y->interflop_cast_double_to_float &&
         x->interflop_user_call == y->interflop_user_call && x->interflop_finalize == y->interflop_finalize &&
         x->interflop_enter_function == y->interflop_enter_function &&
         x->interflop_exit_function == y->interflop_exit_function;
}
#ifdef VF_LANES
#define same_table(x, y) true /* the vector operations reach the backends through the scalar ones */
#endif
#define FRAME()                                                                                     \
  POST(loaded_backends == in_n && contexts[in_wi] == &slot[in_wi] &&                                \
           same_table(&backends[in_wi], &before[in_wi]),                         \
       "the loaded backends are left as they were");
VF_INPUT(uint64_t, a);
VF_INPUT(uint64_t, b);
VF_INPUT(uint64_t, c);
VF_INPUT(uint32_t, p);

#include "wrapper_dd.h"

#define POSTS(SAME, R, NATIVE)                                                                      \
  if (DD_NATIVE) {                                                                                  \
    POST(NATIVE, "an operation left out by the filter is the native one");                          \
    POST(calls == 0 && others == 0, "and no backend sees it");                                      \
  } else {                                                                                          \
    POST(SAME, "the result is what the last backend implementing the operation stored");            \
    POST(calls == implements(in_wi) && hits == calls,                                               \
         "each backend that implements the operation gets the operands, unchanged, once");          \
    POST(in_order, "in the order of loading");                                                      \
    POST(others == 0, "no other operation is called");                                              \
  }                                                                                                 \
  DD_POST()                                                                                         \
  FRAME()                                                                                           \
  VF_REACH();

#define H2(T, NB, NAME, OP)                                                                         \
  void h_##NAME##_##T(void) {                                                                       \
    setup(OP, NB);                                                                                  \
    SOME();                                                                                         \
    VF_GET(a); VF_GET(b);                                                                           \
    DD_SETUP();                                                                                     \
    T a = vf_f##NB(in_a), b = vf_f##NB(in_b);                                                       \
    wa = vf_u##NB(a); wb = vf_u##NB(b); wc = 0;                                                     \
    T r = _##T##NAME(a, b);                                                                         \
    POSTS(vf_same##NB(r, vf_f##NB(in_val)), r, vf_same##NB(r, nat_##NAME##NB(a, b)))                \
  }
#define NAT(T, NB)                                                                                  \
  static inline T nat_add##NB(T a, T b) { return a + b; }                                           \
  static inline T nat_sub##NB(T a, T b) { return a - b; }                                           \
  static inline T nat_mul##NB(T a, T b) { return a * b; }                                           \
  static inline T nat_div##NB(T a, T b) { return a / b; }
NAT(float, 32)
NAT(double, 64)
FOR2(H2, float, 32)
FOR2(H2, double, 64)
#ifdef VF_NATIVE
#define fma32 __builtin_fmaf
#define fma64 __builtin_fma
#else
#include "fma_model.h"
#define fma32 vf_fma32
#define fma64 vf_fma64
#endif
/* left out by the filter: C leaves the contraction of a*b+c to the compiler */
#define H3(T, NB)                                                                                   \
  void h_fma_##T(void) {                                                                            \
    setup(FMA, NB);                                                                                 \
    SOME();                                                                                         \
    VF_GET(a); VF_GET(b); VF_GET(c);                                                                \
    DD_SETUP();                                                                                     \
    T a = vf_f##NB(in_a), b = vf_f##NB(in_b), c = vf_f##NB(in_c);                                   \
    wa = vf_u##NB(a); wb = vf_u##NB(b); wc = vf_u##NB(c);                                           \
    T r = _##T##fma(a, b, c);                                                                       \
    T m = a * b;                                                                                    \
    POSTS(vf_same##NB(r, vf_f##NB(in_val)), r, vf_same##NB(r, m + c) || vf_same##NB(r, fma##NB(a, b, c))) \
  }
H3(float, 32)
H3(double, 64)
#undef DD_NATIVE
#undef DD_SETUP
#undef DD_POST
#define DD_SETUP()
#define DD_NATIVE false /* the filter does not apply to what follows */
#define DD_POST()
#define HC(T, NB)                                                                                   \
  void h_cmp_##T(void) {                                                                            \
    setup(CMP, NB);                                                                                 \
    SOME();                                                                                         \
    VF_GET(a); VF_GET(b);                                                                           \
    VF_RANGE(p, 0, 15);                                                                             \
    T a = vf_f##NB(in_a), b = vf_f##NB(in_b);                                                       \
    wa = vf_u##NB(a); wb = vf_u##NB(b); wc = in_p;                                                  \
    int r = _##T##cmp((enum FCMP_PREDICATE)in_p, a, b);                                             \
    POSTS(r == (int)in_val, r, true)                                                                \
  }
HC(float, 32)
HC(double, 64)
void h_cast(void) {
  setup(CAST, 64);
  SOME();
  VF_GET(a);
  double a = vf_f64(in_a);
  wa = in_a; wb = 0; wc = 0;
  float r = _doubletofloatcast(a);
  POSTS(vf_same32(r, vf_f32(in_val)), r, true)
}
void h_user(void) {
  setup(USER, 0);
  VF_GET(id); VF_GET(x1); VF_GET(x2); VF_GET(x3);
  args_ok = true;
  interflop_call((interflop_call_id)in_id, (int)in_x1, (void *)in_x2, vf_f64(in_x3));
  POST(ucalls[in_wi] == implements(in_wi), "each backend that takes user calls gets the call once");
  POST(args_ok, "with the id and all the arguments");
  POST(in_order && others == 0, "in the order of loading, and nothing else is called");
  FRAME()
  VF_REACH();
}
void h_finalize(void) {
  setup(FINAL, 0);
  vfc_atexit();
  POST(fcalls[in_wi] == implements(in_wi), "each loaded backend is finalised once");
  POST(calls == 0 && others == 0, "nothing else is called");
  VF_REACH();
}

/* ---- vectors: the lanes, each as the scalar operation ------------------ */
#ifdef VF_LANES
VF_INPUT(uint8_t, w); /* a lane, any */
#define CAT_(a, b, c, d) a##b##c##d
#define CAT(a, b, c, d) CAT_(a, b, c, d)
#define VEC(T) CAT(T, VF_LANES, , )
static uint64_t in_va[VF_LANES], in_vb[VF_LANES];
static unsigned nsame;
static void lanes(int nb) {
  VF_RANGE(w, 0, VF_LANES - 1);
  for (int i = 0; i < VF_LANES; i++) {
#ifdef VF_NATIVE
    char nm[24];
    snprintf(nm, sizeof nm, "in_va[%d]", i);
    vf_input(nm, &in_va[i], 8);
    snprintf(nm, sizeof nm, "in_vb[%d]", i);
    vf_input(nm, &in_vb[i], 8);
#else
    uint64_t x, y;
    in_va[i] = x;
    in_vb[i] = y;
#endif
    if (nb == 32) {
      in_va[i] = vf_u32(vf_f32(in_va[i]));
      in_vb[i] = vf_u32(vf_f32(in_vb[i]));
    } else {
      in_va[i] = vf_u64(vf_f64(in_va[i]));
      in_vb[i] = vf_u64(vf_f64(in_vb[i]));
    }
  }
  wa = in_va[in_w];
  wb = in_vb[in_w];
  nsame = 0;
  for (int i = 0; i < VF_LANES; i++)
    nsame += in_va[i] == wa && in_vb[i] == wb;
}
#ifdef VF_COMP
/* the scalar operation, by its contract above: every implementing backend gets the operands once,
 * the result is what the last one stored */
static uint64_t by_contract(int op, int bits, uint64_t a, uint64_t b, uint64_t c) {
  if (op != op_id || bits != op_bits) {
    others++;
    return vf_any64(0);
  }
  bool same = a == wa && b == wb && c == wc;
  calls += implements(in_wi);
  hits += implements(in_wi) && same;
  return same ? in_val : vf_any64(0);
}
#define STUB2(T, NB, NAME, OP)                                                                      \
  T stub_##NAME##_##T(T a, T b) { return vf_f##NB(by_contract(OP, NB, vf_u##NB(a), vf_u##NB(b), 0)); }
FOR2(STUB2, float, 32)
FOR2(STUB2, double, 64)
#define STUBC(T, NB)                                                                                \
  int stub_cmp_##T(enum FCMP_PREDICATE p, T a, T b) {                                               \
    return (int)by_contract(CMP, NB, vf_u##NB(a), vf_u##NB(b), (uint64_t)p);                        \
  }
STUBC(float, 32)
STUBC(double, 64)
#endif
#define POSTSV(SAME)                                                                                \
  POST(SAME, "a lane of the result is what the last backend stored for the operands of that lane"); \
  POST(calls == (implements(in_wi) ? VF_LANES : 0), "each implementing backend is called once per lane"); \
  POST(hits == (implements(in_wi) ? nsame : 0), "with the operands of the lanes");                  \
  POST(others == 0, "no other operation is called");                                                \
  FRAME()                                                                                           \
  VF_REACH();
#define HV(T, NB, NAME, OP)                                                                         \
  void h_v_##NAME##_##T(void) {                                                                     \
    setup(OP, NB);                                                                                  \
    SOME();                                                                                         \
    wc = 0;                                                                                         \
    lanes(NB);                                                                                      \
    VEC(T) a, b;                                                                                    \
    for (int i = 0; i < VF_LANES; i++) {                                                            \
      a[i] = vf_f##NB(in_va[i]);                                                                    \
      b[i] = vf_f##NB(in_vb[i]);                                                                    \
    }                                                                                               \
    VEC(T) r = CAT(_, VF_LANES, x##T, NAME)(a, b);                                                  \
    POSTSV(vf_same##NB(r[in_w], vf_f##NB(in_val)))                                                  \
  }
FOR2(HV, float, 32)
FOR2(HV, double, 64)
#define HVC(T, NB)                                                                                  \
  void h_v_cmp_##T(void) {                                                                          \
    setup(CMP, NB);                                                                                 \
    SOME();                                                                                         \
    VF_RANGE(p, 0, 15);                                                                             \
    wc = in_p;                                                                                      \
    lanes(NB);                                                                                      \
    VEC(T) a, b;                                                                                    \
    for (int i = 0; i < VF_LANES; i++) {                                                            \
      a[i] = vf_f##NB(in_va[i]);                                                                    \
      b[i] = vf_f##NB(in_vb[i]);                                                                    \
    }                                                                                               \
    VEC(int) r = CAT(_, VF_LANES, x##T, cmp)((enum FCMP_PREDICATE)in_p, a, b);                      \
    POSTSV(r[in_w] == (int)in_val)                                                                  \
  }
HVC(float, 32)
HVC(double, 64)
#endif
