/* Random streams: contracts on the entry points of libinterflop_rng
 * (/repo/src/interflop-stdlib/rng, included verbatim). */
#include "vf.h"
#include "interflop/interflop.h"
#include "interflop/rng/vfc_rng.h"

VF_INPUT(uint64_t, s0);
VF_INPUT(uint64_t, s1);
VF_INPUT(uint64_t, g0);
VF_INPUT(uint64_t, g1);
VF_INPUT(uint64_t, seed);
VF_INPUT(uint64_t, seed2);
VF_INPUT(uint32_t, tid);
VF_INPUT(uint32_t, tid2);
VF_INPUT(uint8_t, choose);
VF_INPUT(uint8_t, valid);
VF_INPUT(uint64_t, clk0);
VF_INPUT(uint64_t, clk1);
VF_INPUT(uint64_t, clk2);
VF_INPUT(uint64_t, clk3);
VF_INPUT(uint32_t, ostid);
VF_INPUT(uint32_t, ostid2);

/* published reference generators: xoroshiro128++ 1.0 and SplitMix64 */
static inline uint64_t ref_rotl(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }
static inline uint64_t ref_out(uint64_t a, uint64_t b) { return ref_rotl(a + b, 17) + a; }
static inline uint64_t ref_n0(uint64_t a, uint64_t b) { return ref_rotl(a, 49) ^ (a ^ b) ^ ((a ^ b) << 21); }
static inline uint64_t ref_n1(uint64_t a, uint64_t b) { return ref_rotl(a ^ b, 28); }
static inline uint64_t ref_mix(uint64_t x) {
  x += 0x9E3779B97F4A7C15ULL;
  x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ULL;
  x = (x ^ (x >> 27)) * 0x94D049BB133111EBULL;
  return x ^ (x >> 31);
}

#include "interflop/interflop_stdlib.c"
#include "handlers.h"
#include "interflop/rng/splitmix64.c"
#include "interflop/rng/xoroshiro128.c"
#if defined(VF_ABS_SEED) && !defined(VF_NATIVE)
/* callee by contract: seed expansion is some function of the seed */
uint64_t __CPROVER_uninterpreted_seed(uint64_t);
#define next_seed(x) __CPROVER_uninterpreted_seed(x)
#endif
#include "interflop/rng/vfc_rng.c"
#undef next_seed

static int vf_run;
static int vf_gettimeofday(struct timeval *tv, void *tz) {
  tv->tv_sec = vf_run ? in_clk2 : in_clk0;
  tv->tv_usec = vf_run ? in_clk3 : in_clk1;
  return 0;
}
static int vf_gettid(void) { return vf_run ? in_ostid2 : in_ostid; }
static void env(void) {
  vf_handlers();
  interflop_gettimeofday = (interflop_gettimeofday_t)vf_gettimeofday;
  interflop_gettid = (interflop_gettid_t)vf_gettid;
}

void h_next(void) {
  VF_GET(s0);
  VF_GET(s1);
  VF_ASSUME(in_s0 != 0 || in_s1 != 0);
  xoroshiro_state s = {in_s0, in_s1};
  uint64_t r = next(s);
  POST(s[0] != 0 || s[1] != 0, "state never becomes all zero");
  POST(r == ref_out(in_s0, in_s1), "output is the xoroshiro128++ output");
  POST(s[0] == ref_n0(in_s0, in_s1) && s[1] == ref_n1(in_s0, in_s1), "state advances as xoroshiro128++");
  VF_REACH();
}
void h_next_double(void) {
  VF_GET(s0);
  VF_GET(s1);
  VF_ASSUME(in_s0 != 0 || in_s1 != 0);
  xoroshiro_state s = {in_s0, in_s1};
  double r = next_double(s);
  POST(s[0] != 0 || s[1] != 0, "state never becomes all zero");
  POST(r > 0.0 && r < 1.0, "draw is strictly inside (0,1)");
  POST(s[0] == ref_n0(in_s0, in_s1) && s[1] == ref_n1(in_s0, in_s1), "state advances as xoroshiro128++");
  VF_REACH();
}
/* the draw lies in the cell named by the 52 high output bits, so uniform bits
 * give a uniform draw */
void h_next_double_uniform(void) {
  VF_GET(s0);
  VF_GET(s1);
  xoroshiro_state s = {in_s0, in_s1};
  double r = next_double(s);
  uint64_t k = ref_out(in_s0, in_s1) >> 12;
  POST(r * 0x1p52 >= (double)k && r * 0x1p52 < (double)(k + 1), "draw lies in cell k of 2^52 equal cells, k the high output bits");
  VF_REACH();
}
void h_next_seed(void) {
  VF_GET(seed);
  POST(next_seed(in_seed) == ref_mix(in_seed), "seed expansion is SplitMix64");
  VF_REACH();
}
static rng_state_t mk(uint64_t g0, uint64_t g1) {
  rng_state_t st = {0};
  st.choose_seed = in_choose != 0;
  st.seed = in_seed;
  st.random_state_valid = in_valid != 0;
  st.random_state[0] = in_valid ? in_s0 : g0;
  st.random_state[1] = in_valid ? in_s1 : g1;
  return st;
}
static void getall(void) {
  env();
  VF_GET(s0); VF_GET(s1); VF_GET(g0); VF_GET(g1); VF_GET(seed); VF_GET(seed2); VF_GET(tid); VF_GET(tid2);
  VF_GET(choose); VF_GET(valid);
  VF_GET(clk0); VF_GET(clk1); VF_GET(clk2); VF_GET(clk3); VF_GET(ostid); VF_GET(ostid2);
  VF_ASSUME(!in_valid || in_s0 != 0 || in_s1 != 0);
  VF_ASSUME((int)in_tid >= 0 && (int)in_tid < 1000000);
}
/* Drawing: two runs that agree on the stream state (or, for a fresh stream, on
 * the user's seed and on the rank of the thread) agree on the value drawn and on
 * the next state, whatever the clock, the system thread id and the
 * uninitialised generator words are. */
#define DRAW(H, T, FN)                                                                              \
  void H(void) {                                                                                    \
    getall();                                                                                       \
    VF_ASSUME(in_valid || in_choose);                                                               \
    rng_state_t A = mk(in_g0, in_g1), B = mk(in_g1, in_g0);                                         \
    pid_t ta = in_tid, tb = in_tid;                                                                 \
    vf_run = 0;                                                                                     \
    T ra = FN(&A, &ta);                                                                             \
    vf_run = 1;                                                                                     \
    T rb = FN(&B, &tb);                                                                             \
    POST(ra == rb, "same seed and rank: same draw");                                                \
    POST(A.random_state[0] == B.random_state[0] && A.random_state[1] == B.random_state[1] && ta == tb, "same seed and rank: same next state"); \
    POST(A.random_state_valid && B.random_state_valid, "stream is valid after a draw");             \
    POST(ta == (pid_t)in_tid + (in_valid ? 0 : 1), "a thread takes exactly one rank, on its first draw"); \
    VF_REACH();                                                                                     \
  }
DRAW(h_u32, uint32_t, get_rand_uint32)
DRAW(h_u64, uint64_t, get_rand_uint64)
DRAW(h_d01, double, get_rand_double01)
/* Unseeded streams: still valid, non-degenerate and in range, any clock */
#define DRAWU(H, T, FN, INRANGE)                                                                    \
  void H(void) {                                                                                    \
    getall();                                                                                       \
    rng_state_t A = mk(in_g0, in_g1);                                                               \
    pid_t ta = in_tid;                                                                              \
    vf_run = 0;                                                                                     \
    T r = FN(&A, &ta);                                                                              \
    POST(INRANGE, "draw in range");                                                                 \
    POST(A.random_state_valid, "stream is valid after a draw");                                     \
    POST(A.random_state[0] != 0 || A.random_state[1] != 0, "stream state is never all zero");       \
    VF_REACH();                                                                                     \
  }
DRAWU(h_any_u32, uint32_t, get_rand_uint32, 1)
DRAWU(h_any_u64, uint64_t, get_rand_uint64, 1)
DRAWU(h_any_d01, double, get_rand_double01, r > 0.0 && r < 1.0)
/* a valid stream continues from its state: the draw is the generator's output */
void h_cont(void) {
  getall();
  VF_ASSUME(in_valid);
  rng_state_t A = mk(0, 0), B = A, C = A;
  pid_t t = in_tid;
  uint64_t r = get_rand_uint64(&A, &t);
  POST(r == ref_out(in_s0, in_s1), "64-bit draw is the generator output");
  POST(A.random_state[0] == ref_n0(in_s0, in_s1) && A.random_state[1] == ref_n1(in_s0, in_s1), "64-bit draw advances once");
  uint32_t q = get_rand_uint32(&B, &t);
  POST(q == (uint32_t)ref_out(in_s0, in_s1), "32-bit draw is the low half");
  POST(B.random_state[0] == A.random_state[0] && B.random_state[1] == A.random_state[1], "32-bit draw advances once");
  get_rand_double01(&C, &t);
  POST(C.random_state[0] == A.random_state[0] && C.random_state[1] == A.random_state[1], "double draw advances once");
  VF_REACH();
}
/* a fresh stream with a chosen seed starts at the expansion of (seed xor rank) */
#if defined(VF_ABS_SEED) && !defined(VF_NATIVE)
#define EXPAND(x) __CPROVER_uninterpreted_seed(x)
#else
#define EXPAND(x) ref_mix(x)
#endif
void h_start(void) {
  getall();
  VF_ASSUME(!in_valid && in_choose);
  rng_state_t A = mk(in_g0, in_g1);
  pid_t t = in_tid;
  uint64_t r = get_rand_uint64(&A, &t);
  uint64_t m = EXPAND(in_seed ^ (uint64_t)(in_tid + 1));
  POST(m == 0 || r == ref_out(m, m), "first draw is the generator's on the expansion of seed xor rank");
  POST(m == 0 || (A.random_state[0] == ref_n0(m, m) && A.random_state[1] == ref_n1(m, m)), "stream starts at the expansion of seed xor rank");
  VF_REACH();
}
/* seeding structure: an initialised stream is never reseeded behind the user's
 * back; a fresh one takes the requested seed */
void h_init(void) {
  getall();
  rng_state_t A = mk(in_g0, in_g1), B = A;
  VF_GET(tid2);
  _init_rng_state_struct(&A, in_tid2 & 1, in_seed2, false);
  POST(!in_valid || (A.random_state[0] == B.random_state[0] && A.random_state[1] == B.random_state[1]), "running stream keeps its state");
  POST(!in_valid || (A.random_state_valid && A.choose_seed == B.choose_seed && A.seed == B.seed), "running stream is not reseeded");
  POST(in_valid || (A.choose_seed == (in_tid2 & 1) && A.seed == in_seed2 && !A.random_state_valid), "fresh stream takes the requested seed");
  VF_REACH();
}
/* ranks: concurrent first draws get distinct ranks because the rank is the value
 * after one atomic increment (sequential meaning proved here) */
void h_tid(void) {
  getall();
  pid_t t = in_tid;
  pid_t r = _get_new_tid(&t);
  POST(r == (pid_t)in_tid + 1 && t == (pid_t)in_tid + 1, "rank is the incremented counter");
  VF_REACH();
}
/* distinct (seed xor rank) give distinct starting states */
void h_mix_step1(void) {
  VF_GET(s0); VF_GET(s1);
  VF_ASSUME(in_s0 != in_s1);
  VF_ASSERT((in_s0 ^ (in_s0 >> 30)) != (in_s1 ^ (in_s1 >> 30)), "lemma: xorshift 30 is injective");
  VF_ASSERT((in_s0 ^ (in_s0 >> 27)) != (in_s1 ^ (in_s1 >> 27)), "lemma: xorshift 27 is injective");
  VF_ASSERT((in_s0 ^ (in_s0 >> 31)) != (in_s1 ^ (in_s1 >> 31)), "lemma: xorshift 31 is injective");
  VF_REACH();
}
void h_mix_step2(void) {
  VF_GET(s0);
  VF_ASSERT(in_s0 * 0xBF58476D1CE4E5B9ULL * 0x96DE1B173F119089ULL == in_s0, "lemma: first multiplier is invertible");
  VF_ASSERT(in_s0 * 0x94D049BB133111EBULL * 0x319642B2D24D8EC3ULL == in_s0, "lemma: second multiplier is invertible");
  VF_REACH();
}
