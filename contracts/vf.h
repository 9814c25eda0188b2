/* Contract vocabulary shared by every unit in this directory.
 *
 * The same unit is read two ways:
 *   - by goto-cc (VF_NATIVE undefined): VF_ENSURES / VF_REQUIRES / VF_ASSIGNS
 *     become CBMC contract clauses on the real function, which
 *     goto-instrument --dfcc --enforce-contract turns into proof obligations;
 *   - by gcc (VF_NATIVE defined): the clauses vanish, the harness runs the real
 *     function on concrete inputs and evaluates the very same postcondition
 *     text. This is how a verifier counterexample is replayed.
 *
 * Inputs are file-scope scalars  in_<name>  filled by VF_GET(name).
 */
#ifndef VF_H
#define VF_H
#include <stddef.h>
#include <stdint.h>
#include <stdbool.h>
#include <string.h>

#ifdef VF_NATIVE
#include <stdio.h>
#include <stdlib.h>
extern void vf_input(const char *name, void *p, size_t n);
extern void vf_reject(void);
extern int vf_searching(void);
extern unsigned vf_pick(void);
extern void vf_record(const char *name, void *p, size_t n);
extern void vf_fail(const char *label);
extern void vf_noreturn_stop(void);
#define VF_REQUIRES(e)
#define VF_ASSIGNS(...)
#define VF_ENSURES_X(label, e)
#define VF_CHECK_X(label, e)                                                   \
  if (!(e))                                                                    \
    vf_fail(label);
#define VF_GET(n) vf_input("in_" #n, &in_##n, sizeof(in_##n))
extern void vf_range(const char *name, void *p, size_t n, unsigned long long lo, unsigned long long hi);
#define VF_RANGE(n, lo, hi)                                                    \
  do {                                                                         \
    vf_range("in_" #n, &in_##n, sizeof(in_##n), lo, hi);                       \
    VF_ASSUME(in_##n >= (lo) && in_##n <= (hi));                               \
  } while (0)
#define VF_ASSUME(e)                                                           \
  do {                                                                         \
    if (!(e))                                                                  \
      vf_reject();                                                             \
  } while (0)
#define VF_ASSERT(e, label)                                                    \
  do {                                                                         \
    if (!(e))                                                                  \
      vf_fail(label);                                                          \
  } while (0)
#define VF_REACH()
#define VF_OBJ(p)
#define VF_STOP() vf_noreturn_stop()
#else
#ifdef VF_DIRECT
/* Direct encoding, for code that goto-instrument --dfcc rejects (variadic
 * callees): the harness assumes the precondition, runs the real body and
 * asserts every postcondition clause. Frame clauses are then postconditions. */
#define VF_REQUIRES(e)
#define VF_ASSIGNS(...)
#define VF_ENSURES_X(label, e)
#define VF_CHECK_X(label, e) __CPROVER_assert(e, "post: " label);
#else
#define VF_REQUIRES(e) __CPROVER_requires(e)
#define VF_ASSIGNS(...) __CPROVER_assigns(__VA_ARGS__)
#define VF_ENSURES_X(label, e) __CPROVER_ensures(e)
#define VF_CHECK_X(label, e)
#endif
#define VF_GET(n)                                                              \
  do {                                                                         \
    __typeof__(in_##n) vf_nondet_;                                             \
    in_##n = vf_nondet_;                                                       \
  } while (0)
#define VF_ASSUME(e) __CPROVER_assume(e)
#define VF_RANGE(n, lo, hi)                                                    \
  do {                                                                         \
    VF_GET(n);                                                                 \
    __CPROVER_assume(in_##n >= (lo) && in_##n <= (hi));                        \
  } while (0)
#define VF_ASSERT(e, label) __CPROVER_assert(e, label)
/* Must FAIL: shows that the contract's precondition and the path through the
 * function are satisfiable (vacuity guard). */
#ifdef VF_NOREACH
#define VF_REACH()
#else
#define VF_REACH() __CPROVER_assert(0, "VF_REACH")
#endif
#define VF_OBJ(p) __CPROVER_object_whole(p)
#define VF_STOP() __CPROVER_assume(0)
#endif

/* a postcondition clause asserted by a harness after the call */
#define POST(e, l) VF_ASSERT(e, "post: " l)
#define VF_INPUT(T, n) T in_##n

/* ---- reading bit patterns as floating-point values ------------------- */
static inline float vf_f32(uint32_t u) {
  union {
    uint32_t u;
    float f;
  } x;
  x.u = u;
  return x.f;
}
static inline double vf_f64(uint64_t u) {
  union {
    uint64_t u;
    double f;
  } x;
  x.u = u;
  return x.f;
}
static inline uint32_t vf_u32(float f) {
  union {
    uint32_t u;
    float f;
  } x;
  x.f = f;
  return x.u;
}
static inline uint64_t vf_u64(double f) {
  union {
    uint64_t u;
    double f;
  } x;
  x.f = f;
  return x.u;
}

/* Same value: bit-identical, or both NaN (payload and sign of NaN are free). */
static inline bool vf_same32(float x, float y) {
  return (x != x && y != y) || vf_u32(x) == vf_u32(y);
}
static inline bool vf_same64(double x, double y) {
  return (x != x && y != y) || vf_u64(x) == vf_u64(y);
}
static inline bool vf_isnan32(float x) { return x != x; }
static inline bool vf_isnan64(double x) { return x != x; }
#define VF_EXP32(u) (((u) >> 23) & 0xffu)
#define VF_EXP64(u) (((u) >> 52) & 0x7ffu)
#define VF_MAN32(u) ((u) & 0x7fffffu)
#define VF_MAN64(u) ((u) & 0xfffffffffffffULL)
#define VF_MAG32(u) ((u) & 0x7fffffffu)
#define VF_MAG64(u) ((u) & 0x7fffffffffffffffULL)
#define VF_SUB32(u) (VF_EXP32(u) == 0 && VF_MAN32(u) != 0)
#define VF_SUB64(u) (VF_EXP64(u) == 0 && VF_MAN64(u) != 0)
#define VF_SPECIAL32(u) (VF_EXP32(u) == 0xffu)
#define VF_SPECIAL64(u) (VF_EXP64(u) == 0x7ffu)

#endif
