From d77a290c1719b33442c4edbdc7164f09f274b0d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:44 +0000
Subject: [PATCH 01/29] fix: IEEE backend, unordered-or comparison predicates
 test the relation too

---
 src/backends/interflop-backend-ieee/interflop_ieee.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/backends/interflop-backend-ieee/interflop_ieee.c b/src/backends/interflop-backend-ieee/interflop_ieee.c
index 2a6b357..d644e5b 100644
--- a/src/backends/interflop-backend-ieee/interflop_ieee.c
+++ b/src/backends/interflop-backend-ieee/interflop_ieee.c
@@ -246,27 +246,27 @@ static inline void debug_print_fma_double(void *context,
     (STR) = "FCMP_ORD";                                                        \
     break;                                                                     \
   case FCMP_UEQ:                                                               \
-    *(C) = isunordered(A, B);                                                  \
+    *(C) = isunordered(A, B) || ((A) == (B));                                  \
     (STR) = "FCMP_UEQ";                                                        \
     break;                                                                     \
   case FCMP_UGT:                                                               \
-    *(C) = isunordered(A, B);                                                  \
+    *(C) = !islessequal(A, B);                                                 \
     (STR) = "FCMP_UGT";                                                        \
     break;                                                                     \
   case FCMP_UGE:                                                               \
-    *(C) = isunordered(A, B);                                                  \
+    *(C) = !isless(A, B);                                                      \
     (STR) = "FCMP_UGE";                                                        \
     break;                                                                     \
   case FCMP_ULT:                                                               \
-    *(C) = isunordered(A, B);                                                  \
+    *(C) = !isgreaterequal(A, B);                                              \
     (STR) = "FCMP_ULT";                                                        \
     break;                                                                     \
   case FCMP_ULE:                                                               \
-    *(C) = isunordered(A, B);                                                  \
+    *(C) = !isgreater(A, B);                                                   \
     (STR) = "FCMP_ULE";                                                        \
     break;                                                                     \
   case FCMP_UNE:                                                               \
-    *(C) = isunordered(A, B);                                                  \
+    *(C) = ((A) != (B));                                                       \
     (STR) = "FCMP_UNE";                                                        \
     break;                                                                     \
   case FCMP_UNO:                                                               \
-- 
2.43.0


From f509731a5bb0cd4a87c8c35d179e88f2c790c07a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:34:25 +0000
Subject: [PATCH 02/29] fix: RNG, never start from the all-zero xoroshiro state

seed ^ rank = 0x61c8864680b583eb seeded both words with 0, from where the
generator returns 0 forever.
---
 src/interflop-stdlib/rng/vfc_rng.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/interflop-stdlib/rng/vfc_rng.c b/src/interflop-stdlib/rng/vfc_rng.c
index c414a45..24c5035 100644
--- a/src/interflop-stdlib/rng/vfc_rng.c
+++ b/src/interflop-stdlib/rng/vfc_rng.c
@@ -50,6 +50,9 @@ static void _set_seed(rng_state_t *random_state, const bool choose_seed,
   }
   random_state->random_state[0] = next_seed(random_state->seed);
   random_state->random_state[1] = next_seed(random_state->seed);
+  /* xoroshiro never leaves the all-zero state */
+  if (random_state->random_state[0] == 0 && random_state->random_state[1] == 0)
+    random_state->random_state[1] = next_seed(0);
 }
 
 /* Get a new identifier for the calling thread */
-- 
2.43.0


From 5e5e8746d3efb549f15d74cd8cfb4746d49c49d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:34:25 +0000
Subject: [PATCH 03/29] fix: RNG, never draw 0.0 in the documented open
 interval (0,1)

---
 src/interflop-stdlib/rng/xoroshiro128.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/interflop-stdlib/rng/xoroshiro128.c b/src/interflop-stdlib/rng/xoroshiro128.c
index 47f1ac4..88cea31 100644
--- a/src/interflop-stdlib/rng/xoroshiro128.c
+++ b/src/interflop-stdlib/rng/xoroshiro128.c
@@ -45,13 +45,16 @@ uint64_t next(xoroshiro_state s) {
   [0..1). If x is chosen uniformly among 64-bit integers, d is chosen uniformly
   among dyadic rationals of the form k / 2−52. This is the same technique used
   by generators providing directly doubles, such as the dSFMT."
+  0 is replaced by the middle of its cell of width 2^-52, to obtain a real
+  number in the open interval (0..1).
 */
 static inline double to_double(uint64_t x) {
   const union {
     uint64_t i;
     double d;
   } u = {.i = UINT64_C(0x3FF) << 52 | x >> 12};
-  return u.d - 1.0;
+  const double d = u.d - 1.0;
+  return (d == 0.0) ? 0x1.0p-53 : d;
 }
 
 double next_double(xoroshiro_state s) { return to_double(next(s)); }
-- 
2.43.0


From eb5274d5ba0531a7e3e147ff6dd9ea1bf7cd04e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:42 +0000
Subject: [PATCH 04/29] fix: MCA quad, keep the noise exponent in range

The exponent of the noise was added to the exponent field of the draw without
any range check: a null draw or an out of range exponent (large virtual
precision, large absolute error exponent) wrapped around and produced an
arbitrarily large perturbation.
---
 .../interflop-backend-mcaquad/interflop_mca.c | 22 +++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/backends/interflop-backend-mcaquad/interflop_mca.c b/src/backends/interflop-backend-mcaquad/interflop_mca.c
index b48f3e9..2dfa637 100644
--- a/src/backends/interflop-backend-mcaquad/interflop_mca.c
+++ b/src/backends/interflop-backend-mcaquad/interflop_mca.c
@@ -266,7 +266,6 @@ static const char *_get_error_mode_str(mcaquad_context_t *ctx) {
 }
 
 /* noise = rand * 2^(exp) */
-/* We can skip special cases since we never meet them */
 /* Since we have exponent of float values, the result */
 /* is comprised between: */
 /* 127+127 = 254 < DOUBLE_EXP_MAX (1023)  */
@@ -275,12 +274,19 @@ double _noise_binary64(int exp, rng_state_t *rng_state);
 inline double _noise_binary64(const int exp, rng_state_t *rng_state) {
   const double d_rand = get_rand_double01(rng_state, &mcaquad_global_tid) - 0.5;
   binary64 b64 = {.f64 = d_rand};
-  b64.ieee.exponent = b64.ieee.exponent + exp;
+  const int noise_exp = b64.ieee.exponent + exp;
+  /* no noise was drawn, or it is below the normal range */
+  if (d_rand == 0 || noise_exp <= 0) {
+    return 0;
+  }
+  if (noise_exp >= DOUBLE_EXP_INF) {
+    return (d_rand < 0) ? -INFINITY : INFINITY;
+  }
+  b64.ieee.exponent = noise_exp;
   return b64.f64;
 }
 
 /* noise = rand * 2^(exp) */
-/* We can skip special cases since we never met them */
 /* Since we have exponent of double values, the result */
 /* is comprised between: */
 /* 1023+1023 = 2046 < QUAD_EXP_MAX (16383)  */
@@ -290,7 +296,15 @@ _Float128 _noise_binary128(const int exp, rng_state_t *rng_state) {
   const _Float128 noise =
       (_Float128)get_rand_double01(rng_state, &mcaquad_global_tid) - 0.5Q;
   binary128 b128 = {.f128 = noise};
-  b128.ieee128.exponent = b128.ieee128.exponent + exp;
+  const int noise_exp = (int)b128.ieee128.exponent + exp;
+  /* no noise was drawn, or it is below the normal range */
+  if (noise == 0 || noise_exp <= 0) {
+    return 0;
+  }
+  if (noise_exp >= QUAD_EXP_INF) {
+    return (noise < 0) ? -INFINITY : INFINITY;
+  }
+  b128.ieee128.exponent = noise_exp;
   return b128.f128;
 }
 
-- 
2.43.0


From 994e33d40d78ab51957515db552648ab58c9f5d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:17 +0000
Subject: [PATCH 05/29] fix: MCA quad, flush-to-zero applies to the binary32
 result of casts

---
 src/backends/interflop-backend-mcaquad/interflop_mca.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/backends/interflop-backend-mcaquad/interflop_mca.c b/src/backends/interflop-backend-mcaquad/interflop_mca.c
index 2dfa637..412b852 100644
--- a/src/backends/interflop-backend-mcaquad/interflop_mca.c
+++ b/src/backends/interflop-backend-mcaquad/interflop_mca.c
@@ -656,7 +656,10 @@ void INTERFLOP_MCAQUAD_API(fma_double)(double a, double b, double c,
 
 void INTERFLOP_MCAQUAD_API(cast_double_to_float)(double a, float *res,
                                                  void *context) {
-  *res = _mcaquad_binary64_unary_op(a, mcaquad_cast, context);
+  const mcaquad_context_t *ctx = (mcaquad_context_t *)context;
+  const float b = (float)_mcaquad_binary64_unary_op(a, mcaquad_cast, context);
+  /* the output is a binary32: flush it on that format */
+  *res = ctx->ftz ? FTZ(b) : b;
 }
 
 void _interflop_usercall_inexact(void *context, va_list ap) {
-- 
2.43.0


From 11c3145d15b30585abe0e2ba6cb8cdb925b0419a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:16:16 +0000
Subject: [PATCH 06/29] fix: MCA int, flush-to-zero applies to the binary32
 result of casts

---
 src/backends/interflop-backend-mcaint/interflop_mca_int.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/backends/interflop-backend-mcaint/interflop_mca_int.c b/src/backends/interflop-backend-mcaint/interflop_mca_int.c
index f490a2d..a32110a 100644
--- a/src/backends/interflop-backend-mcaint/interflop_mca_int.c
+++ b/src/backends/interflop-backend-mcaint/interflop_mca_int.c
@@ -572,7 +572,10 @@ void INTERFLOP_MCAINT_API(fma_double)(double a, double b, double c, double *res,
 
 void INTERFLOP_MCAINT_API(cast_double_to_float)(double a, float *res,
                                                 void *context) {
-  *res = (float)_mcaint_binary64_unary_op(a, mcaint_cast, context);
+  const mcaint_context_t *ctx = (mcaint_context_t *)context;
+  const float b = (float)_mcaint_binary64_unary_op(a, mcaint_cast, context);
+  /* the output is a binary32: flush it on that format */
+  *res = ctx->ftz ? FTZ(b) : b;
 }
 
 const char *INTERFLOP_MCAINT_API(get_backend_name)(void) {
-- 
2.43.0


From 50d12e1ef8a12e801d74d701d6ed612adf1b3e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:16:16 +0000
Subject: [PATCH 07/29] fix: bitmask, flush-to-zero applies to the binary32
 result of casts

---
 src/backends/interflop-backend-bitmask/interflop_bitmask.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/backends/interflop-backend-bitmask/interflop_bitmask.c b/src/backends/interflop-backend-bitmask/interflop_bitmask.c
index 28d1160..d4703a7 100644
--- a/src/backends/interflop-backend-bitmask/interflop_bitmask.c
+++ b/src/backends/interflop-backend-bitmask/interflop_bitmask.c
@@ -514,7 +514,10 @@ void INTERFLOP_BITMASK_API(fma_double)(double a, double b, double c,
 
 void INTERFLOP_BITMASK_API(cast_double_to_float)(double a, float *res,
                                                  void *context) {
-  *res = (float)_bitmask_binary64_unary_op(a, bitmask_cast, context);
+  const bitmask_context_t *ctx = (bitmask_context_t *)context;
+  const float b = (float)_bitmask_binary64_unary_op(a, bitmask_cast, context);
+  /* the output is a binary32: flush it on that format */
+  *res = ctx->ftz ? FTZ(b) : b;
 }
 
 const char *INTERFLOP_BITMASK_API(get_backend_name)(void) {
-- 
2.43.0


From 625a639c3c4cb61364b4be69979bc02f92592fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:24:24 +0000
Subject: [PATCH 08/29] fix: cancellation, keep the noise exponent in range

The exponent of the noise was added to the exponent field of the draw without
range check: when the result cancels completely (x - x in double), or for a
null draw, it wrapped around and an arbitrary large noise was added.
---
 .../interflop_cancellation.c                               | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/backends/interflop-backend-cancellation/interflop_cancellation.c b/src/backends/interflop-backend-cancellation/interflop_cancellation.c
index aed1ac1..c8a4cf5 100644
--- a/src/backends/interflop-backend-cancellation/interflop_cancellation.c
+++ b/src/backends/interflop-backend-cancellation/interflop_cancellation.c
@@ -112,7 +112,12 @@ void cancellation_pop_seed() { rng_state = __rng_state; }
 static inline double _noise_binary64(const int exp, rng_state_t *rng_state) {
   const double d_rand = get_rand_double01(rng_state, &global_tid) - 0.5;
   binary64 b64 = {.f64 = d_rand};
-  b64.ieee.exponent += exp;
+  const int noise_exp = b64.ieee.exponent + exp;
+  /* no noise was drawn, or it is below the normal range */
+  if (d_rand == 0 || noise_exp <= 0) {
+    return 0;
+  }
+  b64.ieee.exponent = noise_exp;
   return b64.f64;
 }
 
-- 
2.43.0


From 4a9049fc88d731c55490cd986d488e84bddce6e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:46:45 +0000
Subject: [PATCH 09/29] fix: VPREC, no out-of-range shift when the whole
 mantissa is kept

round_binary{32,64}_normal built the half-ulp with a shift by
PMAN_SIZE - 1 - precision, which is -1 (undefined) when no mantissa bit
is dropped.
---
 .../interflop-backend-vprec/common/vprec_tools.c       | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/backends/interflop-backend-vprec/common/vprec_tools.c b/src/backends/interflop-backend-vprec/common/vprec_tools.c
index fb494fc..6f09523 100644
--- a/src/backends/interflop-backend-vprec/common/vprec_tools.c
+++ b/src/backends/interflop-backend-vprec/common/vprec_tools.c
@@ -69,6 +69,11 @@ inline static int check_if_binary32_needs_rounding(binary32 b32x,
  *   retval x rounded on the specified precision
  */
 inline float round_binary32_normal(float x, int precision) {
+  /* the whole mantissa is kept: there is nothing to round */
+  if (precision >= FLOAT_PMAN_SIZE) {
+    return x;
+  }
+
   /* build 1/2 ulp and add it before truncation for rounding to nearest with
    * ties to even */
 
@@ -132,6 +137,11 @@ inline static int check_if_binary64_needs_rounding(binary64 b64x,
  *   retval x rounded on the specified precision
  */
 inline double round_binary64_normal(double x, int precision) {
+  /* the whole mantissa is kept: there is nothing to round */
+  if (precision >= DOUBLE_PMAN_SIZE) {
+    return x;
+  }
+
   /* build 1/2 ulp and add it  before truncation for rounding to nearest
    * with ties to even */
 
-- 
2.43.0


From 8b4eabdf49ce61cd44ebf4a89354f2c3c737ffdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:03:42 +0000
Subject: [PATCH 10/29] fix: VPREC, honour the absolute error threshold below
 the normal range

In error modes abs and all, a value below the normal range of the virtual
format was rounded with the threshold's exponent taken for a number of
mantissa bits, which flushed it to zero or ignored the threshold; and a tie
with only the implicit bit kept went down instead of to even.
---
 .../common/vprec_tools.c                      | 26 +++++++----
 .../interflop-backend-vprec/interflop_vprec.c | 45 +++++--------------
 2 files changed, 28 insertions(+), 43 deletions(-)

diff --git a/src/backends/interflop-backend-vprec/common/vprec_tools.c b/src/backends/interflop-backend-vprec/common/vprec_tools.c
index 6f09523..06f59c9 100644
--- a/src/backends/interflop-backend-vprec/common/vprec_tools.c
+++ b/src/backends/interflop-backend-vprec/common/vprec_tools.c
@@ -45,9 +45,13 @@ inline static int check_if_binary32_needs_rounding(binary32 b32x,
       (one << (FLOAT_PMAN_SIZE - precision)) - 1;
   const uint32_t trailing_bits = b32x.ieee.mantissa & trailing_bits_mask;
 
-  // Calculate the bit that will be rounded
+  // Calculate the bit that will be rounded (the implicit bit of the mantissa
+  // when no other is kept)
   const uint32_t bit_to_round_offset = (FLOAT_PMAN_SIZE - precision);
-  const uint32_t bit_to_round = (b32x.ieee.mantissa >> bit_to_round_offset) & 1;
+  const uint32_t bit_to_round =
+      (precision == 0)
+          ? 1
+          : ((b32x.ieee.mantissa >> bit_to_round_offset) & 1);
 
   // Calculate the halfway point for rounding.
   const uint32_t halfway_point = one << (FLOAT_PMAN_SIZE - precision - 1);
@@ -113,9 +117,13 @@ inline static int check_if_binary64_needs_rounding(binary64 b64x,
       (one << (DOUBLE_PMAN_SIZE - precision)) - 1;
   const uint64_t trailing_bits = b64x.ieee.mantissa & trailing_bits_mask;
 
-  // Calculate the bit that will be rounded
+  // Calculate the bit that will be rounded (the implicit bit of the mantissa
+  // when no other is kept)
   const uint64_t bit_to_round_offset = (DOUBLE_PMAN_SIZE - precision);
-  const uint64_t bit_to_round = (b64x.ieee.mantissa >> bit_to_round_offset) & 1;
+  const uint64_t bit_to_round =
+      (precision == 0)
+          ? 1
+          : ((b64x.ieee.mantissa >> bit_to_round_offset) & 1);
 
   // Calculate the halfway point for rounding.
   const uint64_t halfway_point = one << (DOUBLE_PMAN_SIZE - precision - 1);
@@ -302,8 +310,9 @@ inline float round_binary32_underflow(float x, int emin, int precision) {
 }
 
 inline float handle_binary32_denormal(float x, int emin, int precision) {
-  /* underflow */
-  if (has_underflow_binary32(x, emin, precision)) {
+  /* underflow (with no bit left, the threshold can be above the exponent field
+   * of subnormals: left to round_binary_denormal) */
+  if (precision > 0 && has_underflow_binary32(x, emin, precision)) {
     return round_binary32_underflow(x, emin, precision);
   }
   /* denormal */
@@ -347,8 +356,9 @@ inline double round_binary64_underflow(double x, int emin, int precision) {
 }
 
 inline double handle_binary64_denormal(double x, int emin, int precision) {
-  /* underflow */
-  if (has_underflow_binary64(x, emin, precision)) {
+  /* underflow (with no bit left, the threshold can be above the exponent field
+   * of subnormals: left to round_binary_denormal) */
+  if (precision > 0 && has_underflow_binary64(x, emin, precision)) {
     return round_binary64_underflow(x, emin, precision);
   }
   /* denormal */
diff --git a/src/backends/interflop-backend-vprec/interflop_vprec.c b/src/backends/interflop-backend-vprec/interflop_vprec.c
index d79eed3..08886b2 100644
--- a/src/backends/interflop-backend-vprec/interflop_vprec.c
+++ b/src/backends/interflop-backend-vprec/interflop_vprec.c
@@ -247,25 +247,12 @@ void _set_vprec_ftz(bool ftz, vprec_context_t *ctx) { ctx->ftz = ftz; }
  * The following functions are used to set virtual precision,
  * VPREC mode of operation and instrumentation mode.
  ***************************************************************/
-extern int compute_absErr_vprec_binary32(bool isDenormal,
-                                         vprec_context_t *currentContext,
+extern int compute_absErr_vprec_binary32(vprec_context_t *currentContext,
                                          int expDiff, int binary32_precision);
-inline int compute_absErr_vprec_binary32(bool isDenormal,
-                                         vprec_context_t *currentContext,
+inline int compute_absErr_vprec_binary32(vprec_context_t *currentContext,
                                          int expDiff, int binary32_precision) {
   /* this function is used only when in vprec error mode abs and all,
    * so there is no need to handle vprec error mode rel */
-  if (isDenormal == true) {
-    /* denormal, or underflow case */
-    if (currentContext->relErr == true) {
-      /* vprec error mode all */
-      if (abs(currentContext->absErr_exp) < binary32_precision) {
-        return currentContext->absErr_exp;
-      }
-      return binary32_precision;
-    } /* vprec error mode abs */
-    return currentContext->absErr_exp;
-  } /* normal case */
   if (currentContext->relErr == true) {
     /* vprec error mode all */
     if (expDiff < binary32_precision) {
@@ -278,26 +265,12 @@ inline int compute_absErr_vprec_binary32(bool isDenormal,
   }
   return FLOAT_PMAN_SIZE;
 }
-extern int compute_absErr_vprec_binary64(bool isDenormal,
-                                         vprec_context_t *currentContext,
+extern int compute_absErr_vprec_binary64(vprec_context_t *currentContext,
                                          int expDiff, int binary64_precision);
-inline int compute_absErr_vprec_binary64(bool isDenormal,
-                                         vprec_context_t *currentContext,
+inline int compute_absErr_vprec_binary64(vprec_context_t *currentContext,
                                          int expDiff, int binary64_precision) {
   /* this function is used only when in vprec error mode abs and all,
    * so there is no need to handle vprec error mode rel */
-  if (isDenormal == true) {
-    /* denormal, or underflow case */
-    if (currentContext->relErr == true) {
-      /* vprec error mode all */
-      if (abs(currentContext->absErr_exp) < binary64_precision) {
-        return currentContext->absErr_exp;
-      }
-      return binary64_precision;
-    } /* vprec error mode abs */
-    return currentContext->absErr_exp;
-
-  } /* normal case */
   if (currentContext->relErr == true) {
     /* vprec error mode all */
     if (expDiff < binary64_precision) {
@@ -334,7 +307,7 @@ inline float handle_binary32_normal_absErr(float a, int32_t aexp,
   } else {
     /* normal case for the absolute error mode */
     int binary32_precision_adjusted = compute_absErr_vprec_binary32(
-        false, currentContext, expDiff, binary32_precision);
+        currentContext, expDiff, binary32_precision);
     retVal = round_binary32_normal(a, binary32_precision_adjusted);
   }
 
@@ -363,7 +336,7 @@ inline double handle_binary64_normal_absErr(double a, int64_t aexp,
   } else {
     /* normal case for the absolute error mode */
     int binary64_precision_adjusted = compute_absErr_vprec_binary64(
-        false, currentContext, (int)expDiff, binary64_precision);
+        currentContext, (int)expDiff, binary64_precision);
     retVal = round_binary64_normal(a, binary64_precision_adjusted);
   }
 
@@ -465,7 +438,8 @@ float _vprec_round_binary32(float a, char is_input, void *context,
     if (currentContext->absErr == true) {
       /* absolute error mode, or both absolute and relative error modes */
       int binary32_precision_adjusted = compute_absErr_vprec_binary32(
-          true, currentContext, 0, binary32_precision);
+          currentContext, emin - currentContext->absErr_exp,
+          binary32_precision);
       a = handle_binary32_denormal(a, emin, binary32_precision_adjusted);
     } else {
       /* relative error mode */
@@ -540,7 +514,8 @@ double _vprec_round_binary64(double a, char is_input, void *context,
     if (currentContext->absErr == true) {
       /* absolute error mode, or both absolute and relative error modes */
       int binary64_precision_adjusted = compute_absErr_vprec_binary64(
-          true, currentContext, 0, binary64_precision);
+          currentContext, emin - currentContext->absErr_exp,
+          binary64_precision);
       a = handle_binary64_denormal(a, emin, binary64_precision_adjusted);
     } else {
       /* relative error mode */
-- 
2.43.0


From 665f0943db443e76afcf4ddea29b6616692edc19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:25:00 +0000
Subject: [PATCH 11/29] fix: bitmask, the default precision is the documented
 24/53 bits

---
 src/backends/interflop-backend-bitmask/interflop_bitmask.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/backends/interflop-backend-bitmask/interflop_bitmask.h b/src/backends/interflop-backend-bitmask/interflop_bitmask.h
index 35808cd..27cef11 100644
--- a/src/backends/interflop-backend-bitmask/interflop_bitmask.h
+++ b/src/backends/interflop-backend-bitmask/interflop_bitmask.h
@@ -22,8 +22,8 @@
 #define BITMASK_PRECISION_BINARY64_MIN 1
 #define BITMASK_PRECISION_BINARY32_MAX FLOAT_PMAN_SIZE
 #define BITMASK_PRECISION_BINARY64_MAX DOUBLE_PMAN_SIZE
-#define BITMASK_PRECISION_BINARY32_DEFAULT FLOAT_PMAN_SIZE
-#define BITMASK_PRECISION_BINARY64_DEFAULT DOUBLE_PMAN_SIZE
+#define BITMASK_PRECISION_BINARY32_DEFAULT FLOAT_PREC
+#define BITMASK_PRECISION_BINARY64_DEFAULT DOUBLE_PREC
 #define BITMASK_OPERATOR_DEFAULT bitmask_operator_zero
 #define BITMASK_MODE_DEFAULT bitmask_mode_ob
 #define BITMASK_SEED_DEFAULT 0ULL
-- 
2.43.0


From 69cf99624104e329644ccd9a4d52f2fd0ced5188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:25:00 +0000
Subject: [PATCH 12/29] fix: bitmask, refuse the out-of-range operator

---
 src/backends/interflop-backend-bitmask/interflop_bitmask.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/backends/interflop-backend-bitmask/interflop_bitmask.c b/src/backends/interflop-backend-bitmask/interflop_bitmask.c
index d4703a7..30ad028 100644
--- a/src/backends/interflop-backend-bitmask/interflop_bitmask.c
+++ b/src/backends/interflop-backend-bitmask/interflop_bitmask.c
@@ -135,7 +135,7 @@ static void _set_bitmask_mode(const bitmask_mode mode, void *context) {
 static void _set_bitmask_operator(const bitmask_operator bitmask,
                                   void *context) {
   bitmask_context_t *ctx = (bitmask_context_t *)context;
-  if (bitmask > _bitmask_operator_end_) {
+  if (bitmask >= _bitmask_operator_end_) {
     logger_error("--%s invalid value provided, must be one of: "
                  "{zero, one, rand}.",
                  key_operator_str);
-- 
2.43.0


From d6254606c14e15ff6f7651849ffd99050ba2cb4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:33:29 +0000
Subject: [PATCH 13/29] fix: vfcwrapper, keep room for the NULL that ends a
 backend's argv

With exactly MAX_ARGS arguments the terminating NULL was written past the end
of backend_argv.
---
 src/vfcwrapper/main.c.in | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vfcwrapper/main.c.in b/src/vfcwrapper/main.c.in
index e703f5d..5b5e29e 100644
--- a/src/vfcwrapper/main.c.in
+++ b/src/vfcwrapper/main.c.in
@@ -463,7 +463,8 @@ __attribute__((constructor(0))) static void vfc_init(void) {
     char *spaceptr;
     char *arg = strtok_r(token, " ", &spaceptr);
     while (arg) {
-      if (backend_argc >= MAX_ARGS) {
+      /* one entry is kept for the final NULL */
+      if (backend_argc >= MAX_ARGS - 1) {
         logger_error("%s syntax error: too many arguments", vfc_backends_env);
       }
       backend_argv[backend_argc++] = arg;
-- 
2.43.0


From 423a61ea238d27db8147ff75097c91b9840d80fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:33:29 +0000
Subject: [PATCH 14/29] fix: vfcwrapper, leave VFC_BACKENDS as it was in the
 environment

strtok_r cut the environment string itself, so a process started by an
instrumented program only saw the name of the first backend, without its
options.
---
 src/vfcwrapper/main.c.in | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/vfcwrapper/main.c.in b/src/vfcwrapper/main.c.in
index 5b5e29e..220528c 100644
--- a/src/vfcwrapper/main.c.in
+++ b/src/vfcwrapper/main.c.in
@@ -265,10 +265,14 @@ void parse_vfc_backends_env(char **vfc_backends, char **vfc_backends_env) {
 
   /* Parse VFC_BACKENDS */
   *vfc_backends_env = (char *)malloc(sizeof(char) * 256);
-  *vfc_backends = (char *)malloc(sizeof(char) * 256);
 
   sprintf(*vfc_backends_env, "VFC_BACKENDS");
   *vfc_backends = getenv(*vfc_backends_env);
+  /* The string is cut into tokens: work on a copy, the environment is passed
+   * on to the processes that the program starts */
+  if (*vfc_backends != NULL) {
+    *vfc_backends = strdup(*vfc_backends);
+  }
 
   /* Parse VFC_BACKENDS_FROM_FILE if VFC_BACKENDS is empty*/
   if (*vfc_backends == NULL) {
-- 
2.43.0


From d2014084f009cc2dfba7ba1dc08ba46b18f98864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:01:55 +0000
Subject: [PATCH 15/29] fix: hashmap, a removed element is no longer in the map

The slot of a removed element keeps its key: have() still answered yes, get()
returned the value 1 and removing it again decremented the number of items.
---
 src/interflop-stdlib/hashmap/vfc_hashmap.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/interflop-stdlib/hashmap/vfc_hashmap.c b/src/interflop-stdlib/hashmap/vfc_hashmap.c
index 2208c55..26350b5 100644
--- a/src/interflop-stdlib/hashmap/vfc_hashmap.c
+++ b/src/interflop-stdlib/hashmap/vfc_hashmap.c
@@ -186,7 +186,8 @@ void vfc_hashmap_remove(vfc_hashmap_t map, ISize_t key) {
   ISize_t ii = map->mask & (hashmap_prime_1 * key);
 
   while (get_value_at(map->items, ii) != 0) {
-    if (get_key_at(map->items, ii) == key) {
+    if (get_value_at(map->items, ii) != 1 &&
+        get_key_at(map->items, ii) == key) {
       set_value_at(map->items, 1, ii);
       map->nitems--;
       map->n_deleted_items++;
@@ -202,7 +203,8 @@ char vfc_hashmap_have(vfc_hashmap_t map, ISize_t key) {
   ISize_t ii = map->mask & (hashmap_prime_1 * key);
 
   while (get_value_at(map->items, ii) != 0) {
-    if (get_key_at(map->items, ii) == key) {
+    if (get_value_at(map->items, ii) != 1 &&
+        get_key_at(map->items, ii) == key) {
       return 1;
     } else {
       ii = map->mask & (ii + hashmap_prime_2);
@@ -216,7 +218,8 @@ void *vfc_hashmap_get(vfc_hashmap_t map, ISize_t key) {
   ISize_t ii = map->mask & (hashmap_prime_1 * key);
 
   while (get_value_at(map->items, ii) != 0) {
-    if (get_key_at(map->items, ii) == key) {
+    if (get_value_at(map->items, ii) != 1 &&
+        get_key_at(map->items, ii) == key) {
       return (void *)get_value_at(map->items, ii);
     } else {
       ii = map->mask & (ii + hashmap_prime_2);
-- 
2.43.0


From a85fdf0f7f08e21375d9b30a62e3ed06f585fbe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:01:55 +0000
Subject: [PATCH 16/29] fix: hashmap, do not free the mark left by a removed
 element

---
 src/interflop-stdlib/hashmap/vfc_hashmap.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/interflop-stdlib/hashmap/vfc_hashmap.c b/src/interflop-stdlib/hashmap/vfc_hashmap.c
index 26350b5..00771c4 100644
--- a/src/interflop-stdlib/hashmap/vfc_hashmap.c
+++ b/src/interflop-stdlib/hashmap/vfc_hashmap.c
@@ -250,6 +250,6 @@ ISize_t vfc_hashmap_str_function(const char *id) {
 // Free the hashmap
 void vfc_hashmap_free(vfc_hashmap_t map) {
   for (ISize_t ii = 0; ii < map->capacity; ii++)
-    if (get_value_at(map->items, ii) != 0 && get_value_at(map->items, ii) != 0)
+    if (get_value_at(map->items, ii) != 0 && get_value_at(map->items, ii) != 1)
       interflop_free((void *)get_value_at(map->items, ii));
 }
\ No newline at end of file
-- 
2.43.0


From 7a45169db4d01c63dbef5157b6545a50092611d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:16 +0000
Subject: [PATCH 17/29] fix: probes, detect a duplicate whose hash is shared
 with another probe

Two names may have the same hash ("Aa" and "BB"). The second of them was then
compared with the first only: recorded again, it appeared twice in the output.
---
 src/common/vfc_probes.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/common/vfc_probes.c b/src/common/vfc_probes.c
index 5f066ca..3ff469e 100644
--- a/src/common/vfc_probes.c
+++ b/src/common/vfc_probes.c
@@ -163,6 +163,15 @@ int vfc_probe_kernel(vfc_probes *probes, char *testName, char *varName,
   vfc_probe_node *oldProbe = (vfc_probe_node *)vfc_hashmap_get(
       probes->map, vfc_hashmap_str_function(key));
 
+  // Different names may have the same hash: look for this one among all probes
+  for (size_t i = 0; oldProbe != NULL && strcmp(key, oldProbe->key) != 0; i++) {
+    if (i == probes->map->capacity) {
+      oldProbe = NULL;
+    } else if (get_value_at(probes->map->items, i) != 0) {
+      oldProbe = (vfc_probe_node *)get_value_at(probes->map->items, i);
+    }
+  }
+
   if (oldProbe != NULL) {
     if (strcmp(key, oldProbe->key) == 0) {
       fprintf(stderr,
-- 
2.43.0


From ef5b27e14696b38db84c0726991cf133663507ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:16 +0000
Subject: [PATCH 18/29] fix: function instrumentation, each backend gets the
 arguments from the first

The va_list is spent once a backend has read it: with two backends the second
one read whatever followed.
---
 src/vfcwrapper/funcinstr.c | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/vfcwrapper/funcinstr.c b/src/vfcwrapper/funcinstr.c
index 41bf805..53b6ba5 100644
--- a/src/vfcwrapper/funcinstr.c
+++ b/src/vfcwrapper/funcinstr.c
@@ -139,16 +139,16 @@ void vfc_enter_function(char *func_name, char isLibraryFunction,
 
   if ((useFloat != 0) || (useDouble != 0)) {
     va_list ap;
-    // n is the number of arguments intercepted, each argument
-    // is represented by a type ID and a pointer
-    va_start(ap, n);
 
     for (int i = 0; i < loaded_backends; i++)
-      if (backends[i].interflop_enter_function)
+      if (backends[i].interflop_enter_function) {
+        // n is the number of arguments intercepted, each argument
+        // is represented by a type ID and a pointer
+        va_start(ap, n);
         backends[i].interflop_enter_function(&_vfc_call_stack, contexts[i], n,
                                              ap);
-
-    va_end(ap);
+        va_end(ap);
+      }
   }
 }
 
@@ -160,16 +160,16 @@ void vfc_exit_function(__attribute__((unused)) char *func_name,
 
   if ((useFloat != 0) || (useDouble != 0)) {
     va_list ap;
-    // n is the number of arguments intercepted, each argument
-    // is represented by a type ID and a pointer
-    va_start(ap, n);
 
     for (int i = 0; i < loaded_backends; i++)
-      if (backends[i].interflop_exit_function)
+      if (backends[i].interflop_exit_function) {
+        // n is the number of arguments intercepted, each argument
+        // is represented by a type ID and a pointer
+        va_start(ap, n);
         backends[i].interflop_exit_function(&_vfc_call_stack, contexts[i], n,
                                             ap);
-
-    va_end(ap);
+        va_end(ap);
+      }
   }
 
   vfc_call_stack_pop();
-- 
2.43.0


From 693a54106418631ef5cfe43881f7f519133a3370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:30 +0000
Subject: [PATCH 19/29] fix: function instrumentation, tell apart functions
 with the same hash

A function whose identifier has the hash of another one was taken for it: its
own precisions were ignored and its calls counted for the other.
---
 src/vfcwrapper/funcinstr.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/vfcwrapper/funcinstr.c b/src/vfcwrapper/funcinstr.c
index 53b6ba5..dfd10b8 100644
--- a/src/vfcwrapper/funcinstr.c
+++ b/src/vfcwrapper/funcinstr.c
@@ -43,7 +43,19 @@ vfc_func_table_add(interflop_function_info_t function) {
 interflop_function_info_t *vfc_func_table_get(const char *id) {
   size_t key = vfc_hashmap_str_function(id);
 
-  return vfc_hashmap_get(_vfc_func_map, key);
+  interflop_function_info_t *function = vfc_hashmap_get(_vfc_func_map, key);
+
+  // Different functions may have the same hash: look for this one among all
+  for (size_t ii = 0; function != NULL && strcmp(id, function->id) != 0; ii++) {
+    if (ii == _vfc_func_map->capacity) {
+      function = NULL;
+    } else if (get_value_at(_vfc_func_map->items, ii) != 0) {
+      function =
+          (interflop_function_info_t *)get_value_at(_vfc_func_map->items, ii);
+    }
+  }
+
+  return function;
 }
 
 // Print the table
-- 
2.43.0


From d7d743fde84f42eb90634d94161b746ba7770499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:36 +0000
Subject: [PATCH 20/29] fix: stdlib, isnan and isinf recognise NaN and
 infinities

The exponent field, not shifted, was compared to the largest exponent, so no
value was ever classified as NaN or infinity: they entered the ranges recorded
by VPREC's function instrumentation.
---
 src/interflop-stdlib/interflop_stdlib.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/interflop-stdlib/interflop_stdlib.c b/src/interflop-stdlib/interflop_stdlib.c
index 3b9e312..7db093b 100644
--- a/src/interflop-stdlib/interflop_stdlib.c
+++ b/src/interflop-stdlib/interflop_stdlib.c
@@ -142,9 +142,9 @@ float interflop_fpclassifyf(float x) {
   int mant = u.i & FLOAT_GET_PMAN;
   if (exp == 0 && mant == 0) {
     return IFP_ZERO;
-  } else if (exp == FLOAT_EXP_MAX && mant == 0) {
+  } else if (exp == FLOAT_GET_EXP && mant == 0) {
     return IFP_INFINITE;
-  } else if (exp == FLOAT_EXP_MAX && mant != 0) {
+  } else if (exp == FLOAT_GET_EXP && mant != 0) {
     return IFP_NAN;
   } else if (exp == 0 && mant != 0) {
     return IFP_SUBNORMAL;
@@ -159,9 +159,9 @@ double interflop_fpclassifyd(double x) {
   long mant = u.i & DOUBLE_GET_PMAN;
   if (exp == 0 && mant == 0) {
     return IFP_ZERO;
-  } else if (exp == FLOAT_EXP_MAX && mant == 0) {
+  } else if (exp == DOUBLE_GET_EXP && mant == 0) {
     return IFP_INFINITE;
-  } else if (exp == FLOAT_EXP_MAX && mant != 0) {
+  } else if (exp == DOUBLE_GET_EXP && mant != 0) {
     return IFP_NAN;
   } else if (exp == 0 && mant != 0) {
     return IFP_SUBNORMAL;
-- 
2.43.0


From c4a0d70f254e4b45561a1e394e40aa596390a248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:36 +0000
Subject: [PATCH 21/29] fix: VPREC function instrumentation, round every
 element of an array

For a pointer argument the first element was rounded once for each element of
the array, and the others never.
---
 .../interflop_vprec_function_instrumentation.c   | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/backends/interflop-backend-vprec/interflop_vprec_function_instrumentation.c b/src/backends/interflop-backend-vprec/interflop_vprec_function_instrumentation.c
index 769d41a..71bbd18 100644
--- a/src/backends/interflop-backend-vprec/interflop_vprec_function_instrumentation.c
+++ b/src/backends/interflop-backend-vprec/interflop_vprec_function_instrumentation.c
@@ -667,9 +667,9 @@ void _vfi_enter_function(interflop_function_stack_t *stack, void *context,
         if (value == NULL) {
           continue;
         }
-        _vprec_round_binary_enter(raw_value, exponent_length, mantissa_length,
+        _vprec_round_binary_enter(value, exponent_length, mantissa_length,
                                   new_flag, mode_flag, type, context);
-        _update_range_bounds(raw_value, arg, new_flag, type);
+        _update_range_bounds(value, arg, new_flag, type);
         _vfi_print_log(ctx, "%la\t(%d, %d)\n", *value, mantissa_length,
                        exponent_length);
       }
@@ -685,9 +685,9 @@ void _vfi_enter_function(interflop_function_stack_t *stack, void *context,
         if (value == NULL) {
           continue;
         }
-        _vprec_round_binary_enter(raw_value, exponent_length, mantissa_length,
+        _vprec_round_binary_enter(value, exponent_length, mantissa_length,
                                   new_flag, mode_flag, type, context);
-        _update_range_bounds(raw_value, arg, new_flag, type);
+        _update_range_bounds(value, arg, new_flag, type);
         _vfi_print_log(ctx, "%a\t(%d, %d)\n", *value, mantissa_length,
                        exponent_length);
       }
@@ -807,9 +807,9 @@ void _vfi_exit_function(interflop_function_stack_t *stack, void *context,
         }
 
         _vfi_print_log_exit(value, function_inst, arg_id, j, type, ctx);
-        _vprec_round_binary_exit(raw_value, exponent_length, mantissa_length,
+        _vprec_round_binary_exit(value, exponent_length, mantissa_length,
                                  new_flag, mode_flag, type, context);
-        _update_range_bounds(raw_value, arg, new_flag, type);
+        _update_range_bounds(value, arg, new_flag, type);
 
         _vfi_print_log(ctx, "%la\t(%d,%d)\n", *value, mantissa_length,
                        exponent_length);
@@ -829,9 +829,9 @@ void _vfi_exit_function(interflop_function_stack_t *stack, void *context,
         }
 
         _vfi_print_log_exit(value, function_inst, arg_id, j, type, ctx);
-        _vprec_round_binary_exit(raw_value, exponent_length, mantissa_length,
+        _vprec_round_binary_exit(value, exponent_length, mantissa_length,
                                  new_flag, mode_flag, type, context);
-        _update_range_bounds(raw_value, arg, new_flag, type);
+        _update_range_bounds(value, arg, new_flag, type);
 
         _vfi_print_log(ctx, "%la\t(%d,%d)\n", *value, mantissa_length,
                        exponent_length);
-- 
2.43.0


From fa0e4237da347c6bbad55260e67e3ccb7087744f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:59 +0000
Subject: [PATCH 22/29] fix: VPREC function instrumentation, the recorded range
 covers every value

On the first call the bounds of an array were those of its last element, and a
value beyond the range of int gave an arbitrary bound (conversion is undefined).
---
 ...interflop_vprec_function_instrumentation.c | 21 ++++++++++++-------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/backends/interflop-backend-vprec/interflop_vprec_function_instrumentation.c b/src/backends/interflop-backend-vprec/interflop_vprec_function_instrumentation.c
index 71bbd18..7928108 100644
--- a/src/backends/interflop-backend-vprec/interflop_vprec_function_instrumentation.c
+++ b/src/backends/interflop-backend-vprec/interflop_vprec_function_instrumentation.c
@@ -435,6 +435,11 @@ void _init_function_inst_arg(_vfi_argument_data_t *arg, char *arg_id,
                              : VPREC_PRECISION_BINARY32_DEFAULT;
 }
 
+/* convert to an int, saturating */
+static int _vfi_to_int(double x) {
+  return (x <= INT_MIN) ? INT_MIN : (x >= INT_MAX) ? INT_MAX : (int)x;
+}
+
 void _update_range_bounds(void *raw_value, _vfi_argument_data_t *arg,
                           int new_flag, enum FTYPES type) {
 
@@ -446,14 +451,14 @@ void _update_range_bounds(void *raw_value, _vfi_argument_data_t *arg,
     float *value = (float *)raw_value;
     isnan = interflop_isnan(*value);
     isinf = interflop_isinf(*value);
-    floor = interflop_floor(*value);
-    ceil = interflop_ceil(*value);
+    floor = _vfi_to_int(interflop_floor(*value));
+    ceil = _vfi_to_int(interflop_ceil(*value));
   } else if (type == FDOUBLE || type == FDOUBLE_PTR) {
     double *value = (double *)raw_value;
     isnan = interflop_isnan(*value);
     isinf = interflop_isinf(*value);
-    floor = interflop_floor(*value);
-    ceil = interflop_ceil(*value);
+    floor = _vfi_to_int(interflop_floor(*value));
+    ceil = _vfi_to_int(interflop_ceil(*value));
   } else {
     logger_error("Invalid type\n");
   }
@@ -669,7 +674,7 @@ void _vfi_enter_function(interflop_function_stack_t *stack, void *context,
         }
         _vprec_round_binary_enter(value, exponent_length, mantissa_length,
                                   new_flag, mode_flag, type, context);
-        _update_range_bounds(value, arg, new_flag, type);
+        _update_range_bounds(value, arg, new_flag && j == 0, type);
         _vfi_print_log(ctx, "%la\t(%d, %d)\n", *value, mantissa_length,
                        exponent_length);
       }
@@ -687,7 +692,7 @@ void _vfi_enter_function(interflop_function_stack_t *stack, void *context,
         }
         _vprec_round_binary_enter(value, exponent_length, mantissa_length,
                                   new_flag, mode_flag, type, context);
-        _update_range_bounds(value, arg, new_flag, type);
+        _update_range_bounds(value, arg, new_flag && j == 0, type);
         _vfi_print_log(ctx, "%a\t(%d, %d)\n", *value, mantissa_length,
                        exponent_length);
       }
@@ -809,7 +814,7 @@ void _vfi_exit_function(interflop_function_stack_t *stack, void *context,
         _vfi_print_log_exit(value, function_inst, arg_id, j, type, ctx);
         _vprec_round_binary_exit(value, exponent_length, mantissa_length,
                                  new_flag, mode_flag, type, context);
-        _update_range_bounds(value, arg, new_flag, type);
+        _update_range_bounds(value, arg, new_flag && j == 0, type);
 
         _vfi_print_log(ctx, "%la\t(%d,%d)\n", *value, mantissa_length,
                        exponent_length);
@@ -831,7 +836,7 @@ void _vfi_exit_function(interflop_function_stack_t *stack, void *context,
         _vfi_print_log_exit(value, function_inst, arg_id, j, type, ctx);
         _vprec_round_binary_exit(value, exponent_length, mantissa_length,
                                  new_flag, mode_flag, type, context);
-        _update_range_bounds(value, arg, new_flag, type);
+        _update_range_bounds(value, arg, new_flag && j == 0, type);
 
         _vfi_print_log(ctx, "%la\t(%d,%d)\n", *value, mantissa_length,
                        exponent_length);
-- 
2.43.0


From ae35c0ab3fdbcad2864169253c7c2ceacf907131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:59 +0000
Subject: [PATCH 23/29] fix: VPREC function instrumentation, tell apart
 functions with the same hash

A function whose identifier has the hash of another one was given the precisions
of that one, and its calls and ranges were counted there.
---
 ...interflop_vprec_function_instrumentation.c | 29 +++++++++++++++----
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/src/backends/interflop-backend-vprec/interflop_vprec_function_instrumentation.c b/src/backends/interflop-backend-vprec/interflop_vprec_function_instrumentation.c
index 7928108..da2a48e 100644
--- a/src/backends/interflop-backend-vprec/interflop_vprec_function_instrumentation.c
+++ b/src/backends/interflop-backend-vprec/interflop_vprec_function_instrumentation.c
@@ -548,6 +548,23 @@ void _vfi_print_log_exit(void *raw_value, _vfi_t *function_inst, char *arg_id,
                         ctx);
 }
 
+// Get the function called id, NULL if there is none
+static _vfi_t *_vfi_get_function(vfc_hashmap_t map, const char *id) {
+  _vfi_t *function = vfc_hashmap_get(map, vfc_hashmap_str_function(id));
+
+  // Different functions may have the same hash: look for this one among all
+  for (size_t ii = 0;
+       function != NULL && interflop_strcmp(id, function->id) != 0; ii++) {
+    if (ii == map->capacity) {
+      function = NULL;
+    } else if (get_value_at(map->items, ii) != 0) {
+      function = (_vfi_t *)get_value_at(map->items, ii);
+    }
+  }
+
+  return function;
+}
+
 // vprec function instrumentation
 // Set precision for internal operations and round input arguments for a given
 // function call
@@ -560,8 +577,8 @@ void _vfi_enter_function(interflop_function_stack_t *stack, void *context,
   if (function_info == NULL)
     logger_error("Call stack error\n");
 
-  _vfi_t *function_inst = vfc_hashmap_get(
-      ctx->vfi->map, vfc_hashmap_str_function(function_info->id));
+  _vfi_t *function_inst =
+      _vfi_get_function(ctx->vfi->map, function_info->id);
 
   // if the function is not in the hashtable
   if (function_inst == NULL) {
@@ -719,8 +736,8 @@ void _vfi_exit_function(interflop_function_stack_t *stack, void *context,
     logger_error("Call stack error \n");
   }
 
-  _vfi_t *function_inst = vfc_hashmap_get(
-      ctx->vfi->map, vfc_hashmap_str_function(function_info->id));
+  _vfi_t *function_inst =
+      _vfi_get_function(ctx->vfi->map, function_info->id);
 
   // set internal operations precision with parent function values
   if (stack->array[stack->top + 1] != NULL) {
@@ -730,8 +747,8 @@ void _vfi_exit_function(interflop_function_stack_t *stack, void *context,
         ctx->vfi->vprec_inst_mode != vprecinst_arg &&
         ctx->vfi->vprec_inst_mode != vprecinst_none) {
 
-      _vfi_t *function_parent = vfc_hashmap_get(
-          ctx->vfi->map, vfc_hashmap_str_function(parent_info->id));
+      _vfi_t *function_parent =
+          _vfi_get_function(ctx->vfi->map, parent_info->id);
 
       if (function_parent != NULL) {
         _set_vprec_precision_binary64(function_parent->OpsPrec64, ctx);
-- 
2.43.0


From eeeb6af7f820761430a107a280f8b0e3cf8de790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:36 +0000
Subject: [PATCH 24/29] fix: VPREC function instrumentation, read a profile
 within its buffers

A function identifier of more than 255 characters (512 are allowed) or a line
with too many fields overran the buffers, and at the end of the file a line that
was never read was scanned.
---
 .../interflop_vprec_function_instrumentation.c | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/backends/interflop-backend-vprec/interflop_vprec_function_instrumentation.c b/src/backends/interflop-backend-vprec/interflop_vprec_function_instrumentation.c
index da2a48e..79338ed 100644
--- a/src/backends/interflop-backend-vprec/interflop_vprec_function_instrumentation.c
+++ b/src/backends/interflop-backend-vprec/interflop_vprec_function_instrumentation.c
@@ -45,8 +45,8 @@ static const char key_input_file_str[] = "prec-input-file";
 static const char key_output_file_str[] = "prec-output-file";
 static const char key_log_file_str[] = "prec-log-file";
 
-#define STRING_BUFF 256
 #define LINE_MAX_SIZE 2048
+#define STRING_BUFF LINE_MAX_SIZE
 
 #define INIT_STRING(A, N)                                                      \
   for (int i = 0; i < (N); i++)                                                \
@@ -215,15 +215,19 @@ long _vfi_scan_int(char *token, const char *field) {
   }
   return res;
 }
-int _vfi_scan_line(FILE *fi, char **tokens) {
+int _vfi_scan_line(FILE *fi, char **tokens, int max_tokens) {
   char line[LINE_MAX_SIZE];
-  interflop_fgets(line, LINE_MAX_SIZE, fi);
+  if (interflop_fgets(line, LINE_MAX_SIZE, fi) == NULL) {
+    return 0;
+  }
   char *tabptr = NULL;
   char *token = interflop_strtok_r(line, "\t", &tabptr);
   int nb_token = 0;
 #pragma unroll
   while (token) {
-    interflop_strcpy(tokens[nb_token], token);
+    if (nb_token < max_tokens) {
+      interflop_strcpy(tokens[nb_token], token);
+    }
     nb_token++;
     token = interflop_strtok_r(NULL, "\t", &tabptr);
   }
@@ -231,7 +235,7 @@ int _vfi_scan_line(FILE *fi, char **tokens) {
 }
 
 int _vfi_scan_header(FILE *fi, _vfi_t *function_ptr) {
-  int nb_token = _vfi_scan_line(fi, tokens_header);
+  int nb_token = _vfi_scan_line(fi, tokens_header, elt_to_read_header);
   if (nb_token != elt_to_read_header) {
     return nb_token;
   }
@@ -257,7 +261,7 @@ int _vfi_scan_header(FILE *fi, _vfi_t *function_ptr) {
 }
 
 int _vfi_scan_input(FILE *fi, _vfi_t *function_ptr, int arg_pos) {
-  int nb_token = _vfi_scan_line(fi, tokens_inputs);
+  int nb_token = _vfi_scan_line(fi, tokens_inputs, elt_to_read_inputs);
   _vfi_argument_data_t *arg_data = &function_ptr->input_args[arg_pos];
 
   // tokens[0] == "input:"
@@ -274,7 +278,7 @@ int _vfi_scan_input(FILE *fi, _vfi_t *function_ptr, int arg_pos) {
 }
 
 int _vfi_scan_output(FILE *fi, _vfi_t *function_ptr, int arg_pos) {
-  int nb_token = _vfi_scan_line(fi, tokens_outputs);
+  int nb_token = _vfi_scan_line(fi, tokens_outputs, elt_to_read_outputs);
   _vfi_argument_data_t *arg_data = &function_ptr->output_args[arg_pos];
 
   // tokens[0] == "output:"
-- 
2.43.0


From 3e84d53845d3ccfd9cb46e8abc4f94dc1e2fceb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:46 +0000
Subject: [PATCH 25/29] fix: VPREC function instrumentation, a profile without
 outputs has none yet

A function that had not returned when the profile was written (exit called
inside) has no output in it. Read back, it was given an array of no element,
taken for the description of its outputs, and overrun when it returned.
---
 .../interflop_vprec_function_instrumentation.c     | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/backends/interflop-backend-vprec/interflop_vprec_function_instrumentation.c b/src/backends/interflop-backend-vprec/interflop_vprec_function_instrumentation.c
index 79338ed..51129f7 100644
--- a/src/backends/interflop-backend-vprec/interflop_vprec_function_instrumentation.c
+++ b/src/backends/interflop-backend-vprec/interflop_vprec_function_instrumentation.c
@@ -300,12 +300,18 @@ void _vfi_read_hasmap(FILE *fin, vprec_context_t *ctx) {
 
   while (_vfi_scan_header(fin, &function) == 12) {
     // allocate space for input arguments
-    function.input_args = (_vfi_argument_data_t *)interflop_calloc(
-        function.nb_input_args, sizeof(_vfi_argument_data_t));
+    function.input_args = NULL;
+    if (function.nb_input_args > 0) {
+      function.input_args = (_vfi_argument_data_t *)interflop_calloc(
+          function.nb_input_args, sizeof(_vfi_argument_data_t));
+    }
 
     // allocate space for output arguments
-    function.output_args = (_vfi_argument_data_t *)interflop_calloc(
-        function.nb_output_args, sizeof(_vfi_argument_data_t));
+    function.output_args = NULL;
+    if (function.nb_output_args > 0) {
+      function.output_args = (_vfi_argument_data_t *)interflop_calloc(
+          function.nb_output_args, sizeof(_vfi_argument_data_t));
+    }
 
     const int elt_to_read = 7;
     // get input arguments precision
-- 
2.43.0


From 5bd6715da74c1ad59d877c401fbdb122742b91a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:55:28 +0000
Subject: [PATCH 26/29] fix: VPREC function instrumentation, loaded twice it
 freed and closed twice

---
 .../interflop_vprec_function_instrumentation.c             | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/backends/interflop-backend-vprec/interflop_vprec_function_instrumentation.c b/src/backends/interflop-backend-vprec/interflop_vprec_function_instrumentation.c
index 51129f7..eb06df0 100644
--- a/src/backends/interflop-backend-vprec/interflop_vprec_function_instrumentation.c
+++ b/src/backends/interflop-backend-vprec/interflop_vprec_function_instrumentation.c
@@ -54,8 +54,10 @@ static const char key_log_file_str[] = "prec-log-file";
 
 #define FREE_STRING(A, N)                                                      \
   for (int i = 0; i < N; i++)                                                  \
-    if ((A)[i])                                                                \
-      interflop_free((A)[i]);
+    if ((A)[i]) {                                                              \
+      interflop_free((A)[i]);                                                  \
+      (A)[i] = NULL;                                                           \
+    }
 
 const int elt_to_read_header = 12;
 const int elt_to_read_inputs = 7;
@@ -418,6 +420,7 @@ void _vfi_finalize(void *context) {
   /* close log file */
   if (_vprec_log_file != NULL) {
     interflop_fclose(_vprec_log_file);
+    _vprec_log_file = NULL;
   }
 
   /* free vprec_function_map */
-- 
2.43.0


From ed6998eb99ebcc519c81e025b1619b8602eb050c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:00:46 +0000
Subject: [PATCH 27/29] fix: ddebug, the generated inclusion file replaces an
 earlier one

---
 src/vfcwrapper/main.c.in | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vfcwrapper/main.c.in b/src/vfcwrapper/main.c.in
index 220528c..3c4a121 100644
--- a/src/vfcwrapper/main.c.in
+++ b/src/vfcwrapper/main.c.in
@@ -165,7 +165,8 @@ vfc_hashmap_t dd_must_instrument;
 vfc_hashmap_t dd_mustnot_instrument;
 
 void ddebug_generate_inclusion(char *dd_generate_path, vfc_hashmap_t map) {
-  int output = open(dd_generate_path, O_WRONLY | O_CREAT, S_IWUSR | S_IRUSR);
+  int output = open(dd_generate_path, O_WRONLY | O_CREAT | O_TRUNC,
+                    S_IWUSR | S_IRUSR);
   if (output == -1) {
     logger_error("cannot open DDEBUG_GEN file %s", dd_generate_path);
   }
-- 
2.43.0


From 7f97ebd70dc115d953dbfff8b2556bbace901ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:00:46 +0000
Subject: [PATCH 28/29] fix: ddebug, a filter file that cannot be read is an
 error

---
 src/vfcwrapper/main.c.in | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/vfcwrapper/main.c.in b/src/vfcwrapper/main.c.in
index 3c4a121..3304542 100644
--- a/src/vfcwrapper/main.c.in
+++ b/src/vfcwrapper/main.c.in
@@ -253,6 +253,10 @@ static void vfc_read_filter_file(const char *dd_filter_path,
             dd_filter_path, lineno);
       }
     }
+    fclose(input);
+  } else {
+    logger_error("ddebug: cannot open VFC_DDEBUG_[INCLUDE/EXCLUDE] file %s: %s",
+                 dd_filter_path, strerror(errno));
   }
 }
 #endif
-- 
2.43.0


From d52503ee9bf24bb7ed523623bce3e1d1794bceb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:09:00 +0000
Subject: [PATCH 29/29] fix: logger, a log file name too long for its buffer is
 refused

---
 src/interflop-stdlib/iostream/logger.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/interflop-stdlib/iostream/logger.c b/src/interflop-stdlib/iostream/logger.c
index 7088e6e..d7a6cc3 100644
--- a/src/interflop-stdlib/iostream/logger.c
+++ b/src/interflop-stdlib/iostream/logger.c
@@ -188,6 +188,16 @@ void set_logger_logfile() {
   } else {
     /* Create log File specific to TID to avoid non-deterministic output */
     char tmp[1024];
+    /* Leave room for the dot, the TID and the final null character */
+    const int max_length = (int)sizeof(tmp) - 13;
+    int length = 0;
+    while (length <= max_length && logger_logfile_env[length] != '\0') {
+      length++;
+    }
+    if (length > max_length) {
+      _interflop_err(EXIT_FAILURE, "Error [%s]: name given in %s is too long",
+                     backend_header, vfc_backends_logfile);
+    }
     int r =
         interflop_sprintf(tmp, "%s.%d", logger_logfile_env, interflop_gettid());
     if (r < 0) {
-- 
2.43.0

