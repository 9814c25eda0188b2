/* The random library at its boundary: get_rand_* are replaced by their contract
 * (proved against the real rng sources by property C03): each call returns the
 * next of the harness inputs in_r[k], a double in (0,1) that is a multiple of
 * 2^-53, or for integer draws in_q[k], any 64-bit word. _init_rng_state_struct is replaced by its contract (also C03). The
 * stand-ins also check what the caller owes the library: a fresh stream carries
 * the seed request of the backend context. */
#ifndef VF_DRAWS_H
#define VF_DRAWS_H
#include "interflop/rng/vfc_rng.h"
#ifndef VF_NDRAWS
#define VF_NDRAWS 12
#endif
uint64_t in_r[VF_NDRAWS]; /* real draws */
uint64_t in_q[VF_NDRAWS]; /* integer draws: any 64 bits */
int vf_drawn;      /* number of draws so far */
bool vf_want_choose; /* seed request the harness put in the context */
uint64_t vf_want_seed;
bool vf_stream_ok = true;
static rng_state_t *vf_stream;
static pid_t *vf_rank;

static inline bool vf_draw_contract(uint64_t u) {
  uint64_t e = u >> 52; /* sign 0 */
  return e >= 970 && e <= 1022 && (VF_MAN64(u) & ((1ULL << (1022 - e)) - 1)) == 0;
}
#ifdef VF_NATIVE
#define vf_rsel(k) (in_r[k])
#define vf_qsel(k) (in_q[k])
#else
/* scalars, not an array: keeps the array theory out of the formula */
static uint64_t vf_r0, vf_r1, vf_r2, vf_r3, vf_r4, vf_r5, vf_r6, vf_r7, vf_r8, vf_r9, vf_r10, vf_r11;
static inline uint64_t vf_rsel(int k) {
  return k == 0 ? vf_r0 : k == 1 ? vf_r1 : k == 2 ? vf_r2 : k == 3 ? vf_r3 : k == 4 ? vf_r4 : k == 5 ? vf_r5
       : k == 6 ? vf_r6 : k == 7 ? vf_r7 : k == 8 ? vf_r8 : k == 9 ? vf_r9 : k == 10 ? vf_r10 : vf_r11;
}
static uint64_t vf_q0, vf_q1, vf_q2, vf_q3, vf_q4, vf_q5, vf_q6, vf_q7, vf_q8, vf_q9, vf_q10, vf_q11;
static inline uint64_t vf_qsel(int k) {
  return k == 0 ? vf_q0 : k == 1 ? vf_q1 : k == 2 ? vf_q2 : k == 3 ? vf_q3 : k == 4 ? vf_q4 : k == 5 ? vf_q5
       : k == 6 ? vf_q6 : k == 7 ? vf_q7 : k == 8 ? vf_q8 : k == 9 ? vf_q9 : k == 10 ? vf_q10 : vf_q11;
}
#endif
static inline void vf_draws_get(void) {
#ifdef VF_NATIVE
  for (int i = 0; i < VF_NDRAWS; i++) {
    char n[16];
    snprintf(n, sizeof n, "in_r[%d]", i);
    vf_input(n, &in_r[i], 8);
    extern int vf_searching(void);
    if (vf_searching()) { /* any 64-bit input stands for a draw */
      if (!vf_draw_contract(in_r[i]) && in_r[i] != 0x3fe0000000000000ULL) {
        uint64_t k = in_r[i] & 0x1fffffffffffffULL;
        if (k == 0) k = 1;
        double d = (double)k * 0x1p-53;
        memcpy(&in_r[i], &d, 8);
        extern void vf_record(const char *, void *, size_t);
      }
      extern void vf_record(const char *, void *, size_t);
      vf_record(n, &in_r[i], 8);
    }
    VF_ASSUME(vf_draw_contract(in_r[i]));
    snprintf(n, sizeof n, "in_q[%d]", i);
    vf_input(n, &in_q[i], 8);
  }
#else
#define VF_R(i)                                                                \
  {                                                                            \
    uint64_t v;                                                                \
    in_r[i] = v;                                                               \
    __CPROVER_assume(vf_draw_contract(v));                                     \
    vf_r##i = v;                                                               \
    uint64_t q;                                                                \
    in_q[i] = q;                                                               \
    vf_q##i = q;                                                               \
  }
  VF_R(0) VF_R(1) VF_R(2) VF_R(3) VF_R(4) VF_R(5) VF_R(6) VF_R(7) VF_R(8) VF_R(9) VF_R(10) VF_R(11)
#endif
  vf_drawn = 0;
  vf_stream_ok = true;
  vf_stream = 0;
}
static inline uint64_t vf_draw_bits(int k) {
  VF_ASSERT(k >= 0 && k < VF_NDRAWS, "number of draws within the modelled supply");
  return vf_qsel(k);
}
static inline double vf_draw_at(int k) {
  VF_ASSERT(k >= 0 && k < VF_NDRAWS, "number of draws within the modelled supply");
  return vf_f64(vf_rsel(k));
}
#ifndef VF_OWN_INIT_RNG
void _init_rng_state_struct(rng_state_t *s, bool choose_seed, uint64_t seed, bool valid) {
  POST(!valid || s->random_state_valid, "a stream is not marked as seeded before it is");
  if (!s->random_state_valid) {
    s->choose_seed = choose_seed;
    s->seed = seed;
    s->random_state_valid = valid;
  }
}
#endif
static inline void vf_touch(rng_state_t *s, pid_t *t) {
  if (!s->random_state_valid && (s->choose_seed != vf_want_choose || (vf_want_choose && s->seed != vf_want_seed)))
    vf_stream_ok = false;
  if (vf_stream == 0) {
    vf_stream = s;
    vf_rank = t;
  }
  if (vf_stream != s || vf_rank != t)
    vf_stream_ok = false;
  s->random_state_valid = true;
}
double get_rand_double01(rng_state_t *s, pid_t *t) {
  vf_touch(s, t);
  return vf_draw_at(vf_drawn++);
}
uint64_t get_rand_uint64(rng_state_t *s, pid_t *t) {
  vf_touch(s, t);
  return vf_draw_bits(vf_drawn++);
}
uint32_t get_rand_uint32(rng_state_t *s, pid_t *t) { return (uint32_t)get_rand_uint64(s, t); }
pid_t _get_new_tid(pid_t *g) { return ++*g; }
/* the stream obligations, to be asserted after the call under contract */
#define POSTS_DRAWS(n)                                                                              \
  POST(vf_drawn == (n), "number of random draws");                                                  \
  POST(vf_stream_ok, "one stream per thread, seeded as the context asks");
#endif
