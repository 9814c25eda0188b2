/* VPREC, function by function: precision of the operations of each function, rounding of its
 * arguments, what is recorded, and the profile file. Text under proof:
 * interflop_vprec_function_instrumentation.c and interflop_stdlib.c, verbatim. The hash map and the
 * rounding into a format are represented by their contracts (C15, C08). */
#include "vf.h"
#include "shim.h"
#ifndef VF_NATIVE
/* the compiler's built-ins: some functions */
double __CPROVER_uninterpreted_floor(double);
double __CPROVER_uninterpreted_ceil(double);
#define vf_floor __CPROVER_uninterpreted_floor
#define vf_ceil __CPROVER_uninterpreted_ceil
#define __builtin_floor vf_floor
#define __builtin_ceil vf_ceil
#else
#define vf_floor __builtin_floor
#define vf_ceil __builtin_ceil
#endif
#include <limits.h>
#include <stdio.h>
#include "va_fresh.h"
#include "interflop/interflop.h"
#include "interflop/interflop_stdlib.c"
#include "interflop_vprec_function_instrumentation.c"
#include "handlers.h"
#define SLOTS 2
#define NAME 2
#ifndef CALLARGS /* arguments of the call: type and size (-1: a null pointer) of each */
#define CALLARGS {FDOUBLE, 1}, {FDOUBLE_PTR, 2}
#endif
#define ARGS 2
#define SZ 2
static const int callargs[][2] = {CALLARGS};
#define NARGS (int)(sizeof callargs / sizeof *callargs)
/* ---- the functions known, by the contract of the map ------------------------------------------ */
static struct vfc_hashmap_st the_map;
static ISize_t table[2 * SLOTS];
/* separate objects: the verifier follows each pointer exactly */
static _vfi_t fn0, fn1, was0, was1, pool0, pool1, pool2, *ins[SLOTS + 1];
static _vfi_t *const fn[] = {&fn0, &fn1}, *const old_fn[] = {&was0, &was1}, *const pool[] = {&pool0, &pool1, &pool2};
static ISize_t ins_key[SLOTS + 1];
typedef _vfi_argument_data_t args_t[ARGS];
static args_t a00, a01, a10, a11, o00, o01, o10, o11, q0, q1, q2, q3, q4;
static _vfi_argument_data_t *const fargs[SLOTS][2] = {{a00, a01}, {a10, a11}}, *const old_args[SLOTS][2] = {{o00, o01}, {o10, o11}},
                                   *const apool[] = {q0, q1, q2, q3, q4};
static unsigned allocs, callocs, inserted;
static size_t calloc_n[2 * SLOTS + 1];
static interflop_function_info_t cur, par, *arr[3], old_cur;
static char cur_id[NAME + 1], par_id[NAME + 1];
VF_INPUT(uint8_t, pick);
VF_INPUT(uint8_t, live);
VF_INPUT(uint8_t, c);
VF_INPUT(uint8_t, flags);
VF_INPUT(uint8_t, pflags);
VF_INPUT(uint8_t, known); /* whether the inputs, the outputs of a function were described before */
VF_INPUT(uint8_t, p);
VF_INPUT(uint8_t, r);
VF_INPUT(uint32_t, num);
VF_INPUT(uint8_t, type);
VF_INPUT(uint64_t, x);
VF_INPUT(uint8_t, mode);
VF_INPUT(uint8_t, inst);
VF_INPUT(uint8_t, log);
static bool slot_live(int i) { return in_live >> i & 1; }
static bool same(const char *a, const char *b) {
  bool r = true, end = false;
  for (int i = 0; i <= NAME; i++) {
    if (!end && a[i] != b[i])
      r = false;
    if (!end && a[i] == 0)
      end = true;
  }
  return r;
}
ISize_t get_value_at(ISize_t *items, ISize_t i) {
  POST(items == table && i < SLOTS, "asks for a slot of the table");
  return items[2 * i];
}
ISize_t get_key_at(ISize_t *items, ISize_t i) {
  POST(items == table && i < SLOTS, "asks for a slot of the table");
  return items[2 * i + 1];
}
void *vfc_hashmap_get(vfc_hashmap_t m, ISize_t k) {
  POST(m == &the_map, "this map");
  void *r = NULL;
  for (int j = 0; j < SLOTS; j++)
    if (slot_live(j) && table[2 * j + 1] == k && (r == NULL || in_pick)) /* if both, any of them */
      r = fn[j];
  return r;
}
char vfc_hashmap_have(vfc_hashmap_t m, ISize_t k) { return vfc_hashmap_get(m, k) != NULL; }
void vfc_hashmap_insert(vfc_hashmap_t m, ISize_t k, void *v) {
  POST(m == &the_map && inserted <= SLOTS, "inserted in this map, once for each function");
  ins_key[inserted] = k;
  ins[inserted++] = v;
}
vfc_hashmap_t vfc_hashmap_create(void) { return &the_map; }
static unsigned destroyed, emptied;
void vfc_hashmap_free(vfc_hashmap_t m) { emptied++; }
void vfc_hashmap_destroy(vfc_hashmap_t m) { destroyed++; }
static const char *const others[] = {cur_id, par_id};
ISize_t vfc_hashmap_str_function(const char *s) {
#ifdef VF_NATIVE
  ISize_t h = 0;
  for (int i = 0; i < NAME && s[i]; i++)
    h = h * 31 + (unsigned char)s[i];
  return h;
#else
  static ISize_t key_of[2];
  static bool known[2];
  for (int i = 0; i < SLOTS; i++)
    if (slot_live(i) && same(s, fn[i]->id))
      return table[2 * i + 1];
  for (int i = 0; i < 2; i++)
    if (same(s, others[i])) {
      if (!known[i]) {
        uint8_t k;
        key_of[i] = k;
        known[i] = true;
      }
      return key_of[i];
    }
  POST(false, "the key of a function's name");
  return 0;
#endif
}
/* ---- the rest of the backend, by its contract --------------------------------------------------- */
static vprec_context_t ctx, ctx0;
static t_context_vfi vfi, vfi0;
#ifndef VF_NATIVE
uint32_t __CPROVER_uninterpreted_r32(uint32_t, int, int, int);
uint64_t __CPROVER_uninterpreted_r64(uint64_t, int, int, int);
#define R32 __CPROVER_uninterpreted_r32
#define R64 __CPROVER_uninterpreted_r64
#else
static uint32_t R32(uint32_t u, int in, int r, int p) { return u ^ (uint32_t)(in + 2 * (r + 16 * p)); }
static uint64_t R64(uint64_t u, int in, int r, int p) { return u ^ (uint64_t)(in + 2 * (r + 16 * p)); }
#endif
float _vprec_round_binary32(float a, char is_input, void *c, int r, int p) {
  POST(c == &ctx && r >= 2 && r <= 8 && p >= 1 && p <= 23, "a binary32 value is rounded to a binary32 format");
  return vf_f32(R32(vf_u32(a), is_input != 0, r, p));
}
double _vprec_round_binary64(double a, char is_input, void *c, int r, int p) {
  POST(c == &ctx && r >= 2 && r <= 11 && p >= 1 && p <= 52, "a binary64 value is rounded to a binary64 format");
  return vf_f64(R64(vf_u64(a), is_input != 0, r, p));
}
#define SETTER(what, lo, hi)                                                                        \
  void _set_vprec_##what(int v, vprec_context_t *c) {                                               \
    POST(c == &ctx && v >= lo && v <= hi, #what " is set to a valid value");                        \
    c->WHAT_##what = v;                                                                             \
  }
#define WHAT_precision_binary32 binary32_precision
#define WHAT_precision_binary64 binary64_precision
#define WHAT_range_binary32 binary32_range
#define WHAT_range_binary64 binary64_range
SETTER(precision_binary32, 1, 23)
SETTER(precision_binary64, 1, 52)
SETTER(range_binary32, 2, 8)
SETTER(range_binary64, 2, 11)
#define WORDS 26
static int nwords;
static char words[2 * WORDS][12];
static bool word_live[2 * WORDS];
static void *s_malloc(size_t n) {
  if (n == sizeof(_vfi_t)) {
    POST(allocs <= SLOTS, "one description for each new function");
    return pool[allocs++];
  }
  POST(nwords < 2 * WORDS, "one buffer for each field of a line");
  word_live[nwords] = true;
  return words[nwords++]; /* the words of a line: those of the stand-ins below are short */
}
static void s_free(void *p) {
  for (int i = 0; i < 2 * WORDS; i++)
    if (p == words[i]) {
      POST(word_live[i], "a buffer is freed once");
      word_live[i] = false;
    }
}
static void *s_calloc(size_t n, size_t sz) {
  POST(sz == sizeof(_vfi_argument_data_t) && n >= 1 && n <= ARGS && callocs <= 2 * SLOTS, "one description for each argument");
  calloc_n[callocs] = n;
  return apool[callocs++];
}
static char s_strcpy(char *d, const char *s) {
  int i = 0;
  for (; s[i]; i++)
    d[i] = s[i];
  d[i] = 0;
  return 0;
}
static int s_strcmp(const char *a, const char *b) { return strcmp(a, b); }
static void name(char *s) {
#ifdef VF_NATIVE
  static const char few[][3] = {"Aa", "BB", "C", "D", "Aa", "BB", "C", "D"};
  int r = vf_searching() ? vf_pick() % 9 : 8; /* names that share their hash are common */
#endif
  for (int i = 0; i < NAME; i++) {
    VF_GET(c);
#ifdef VF_NATIVE
    if (r < 8) {
      in_c = few[r][i < 2 ? i : 2];
      vf_record("in_c", &in_c, 1);
    }
#endif
    s[i] = (char)in_c;
  }
  s[NAME] = 0;
}
#define FL(f, b) ((char)((f) >> (b) & 1))
static bool is64(int t) { return t == FDOUBLE || t == FDOUBLE_PTR; }
static bool is_ptr(int t) { return t == FDOUBLE_PTR || t == FFLOAT_PTR; }
static int types[ARGS], sizes[ARGS];
static double dv[ARGS][SZ], old_dv[ARGS][SZ];
static float fv[ARGS][SZ], old_fv[ARGS][SZ];
static char *arg_ids[ARGS];
static char ids[ARGS][NAME + 1];
static void *raw[ARGS];
static void any_arg(_vfi_argument_data_t *a, int t) {
  VF_RANGE(p, 1, is64(t) ? 52 : 23);
  VF_RANGE(r, 2, is64(t) ? 11 : 8);
  a->mantissa_length = in_p;
  a->exponent_length = in_r;
  a->data_type = (short)t;
  VF_GET(num);
  a->min_range = (int)in_num;
  VF_GET(num);
  a->max_range = (int)in_num;
  a->arg_id[0] = 'q';
  a->arg_id[1] = 0;
}
static void any_fn(_vfi_t *f) {
  name(f->id);
  VF_GET(flags);
  f->isLibraryFunction = FL(in_flags, 0);
  f->isIntrinsicFunction = FL(in_flags, 1);
  f->useFloat = FL(in_flags, 2);
  f->useDouble = FL(in_flags, 3);
  VF_RANGE(p, 1, 52);
  f->OpsPrec64 = in_p;
  VF_RANGE(r, 2, 11);
  f->OpsRange64 = in_r;
  VF_RANGE(p, 1, 23);
  f->OpsPrec32 = in_p;
  VF_RANGE(r, 2, 8);
  f->OpsRange32 = in_r;
  VF_GET(num);
  f->n_calls = (int)(in_num & 0x3fffffff);
}
static void map_and_ctx(void) {
  vf_handlers();
  interflop_malloc = (interflop_malloc_t)s_malloc;
  interflop_calloc = (interflop_calloc_t)s_calloc;
  interflop_free = s_free;
  interflop_strcpy = s_strcpy;
  interflop_strcmp = s_strcmp;
  VF_RANGE(pick, 0, SLOTS - 1);
  VF_GET(live);
  the_map.capacity = SLOTS;
  the_map.items = table;
  the_map.nitems = 0;
  VF_RANGE(mode, 0, _vprecmode_end_ - 1);
  VF_RANGE(inst, 0, _vprecinst_end_ - 1);
  ctx.vfi = &vfi;
  ctx.mode = in_mode;
  VF_RANGE(p, 1, 23);
  ctx.binary32_precision = in_p;
  VF_RANGE(r, 2, 8);
  ctx.binary32_range = in_r;
  VF_RANGE(p, 1, 52);
  ctx.binary64_precision = in_p;
  VF_RANGE(r, 2, 11);
  ctx.binary64_range = in_r;
  vfi.map = &the_map;
  vfi.vprec_inst_mode = in_inst;
#ifdef LOG
  in_log = LOG;
#else
  in_log = 2;
#endif
  vfi.vprec_log_depth = in_log >> 1;
  _vprec_log_file = in_log & 1 ? (File *)&the_map : NULL;
  allocs = callocs = inserted = 0;
}
static void put(int i) {
  table[2 * i] = slot_live(i) ? (ISize_t)fn[i] : 0;
#ifdef VF_NATIVE
  table[2 * i + 1] = vfc_hashmap_str_function(fn[i]->id);
#else
  uint8_t h;
  table[2 * i + 1] = h;
#endif
  the_map.nitems += slot_live(i);
  for (int j = 0; j < i; j++)
    VF_ASSUME(!(slot_live(i) && slot_live(j)) || !same(fn[i]->id, fn[j]->id));
}
static int find(const char *id) {
  int k = -1;
  for (int i = 0; i < SLOTS; i++)
    if (slot_live(i) && same(fn[i]->id, id))
      k = i;
  return k;
}
static void setup(void) {
  map_and_ctx();
  for (int i = 0; i < ARGS; i++) {
    types[i] = i < NARGS ? callargs[i][0] : FDOUBLE;
    sizes[i] = i < NARGS ? callargs[i][1] : 1;
    for (int j = 0; j < SZ; j++) {
      VF_GET(x);
      old_dv[i][j] = dv[i][j] = vf_f64(in_x);
      old_fv[i][j] = fv[i][j] = vf_f32((uint32_t)in_x);
    }
    name(ids[i]);
    raw[i] = sizes[i] < 0 ? NULL : is64(types[i]) ? (void *)dv[i] : (void *)fv[i];
    if (sizes[i] < 0)
      sizes[i] = SZ;
  }
  for (int i = 0; i < SLOTS; i++) {
    any_fn(fn[i]);
    VF_GET(known);
    for (int d = 0; d < 2; d++) {
      bool k = in_known >> d & 1 && NARGS > 0;
      for (int a = 0; a < ARGS; a++)
        any_arg(&fargs[i][d][a], types[a]);
      *(d ? &fn[i]->nb_output_args : &fn[i]->nb_input_args) = k ? NARGS : 0;
      *(d ? &fn[i]->output_args : &fn[i]->input_args) = k ? fargs[i][d] : NULL;
    }
    put(i);
  }
  name(cur_id);
  name(par_id);
  VF_GET(flags);
  VF_GET(pflags);
  cur.id = cur_id;
  cur.isLibraryFunction = FL(in_flags, 0);
  cur.isIntrinsicFunction = FL(in_flags, 1);
  cur.useFloat = FL(in_flags, 2);
  cur.useDouble = FL(in_flags, 3);
  par.id = par_id;
  par.isLibraryFunction = FL(in_pflags, 0);
  par.isIntrinsicFunction = FL(in_pflags, 1);
  arr[0] = &cur;
  arr[1] = in_pflags & 4 ? NULL : &par;
  arr[2] = NULL;
  vf_error_ok = false;
  for (int i = 0; i < SLOTS; i++) {
    *old_fn[i] = *fn[i];
    for (int d = 0; d < 2; d++)
      for (int a = 0; a < ARGS; a++)
        old_args[i][d][a] = fargs[i][d][a];
  }
  ctx0 = ctx;
  vfi0 = vfi;
  old_cur = cur;
}
static interflop_function_stack_t stack;
static void call(void (*f)(interflop_function_stack_t *, void *, int, va_list), int n, ...) {
  va_list ap;
  stack.array = arr;
  stack.top = 0;
  va_start(ap, n);
  f(&stack, &ctx, n, ap);
  va_end(ap);
}
#define CALL(f)                                                                                     \
  call(f, NARGS, types[0], ids[0], sizes[0], raw[0], types[ARGS - 1], ids[ARGS - 1], sizes[ARGS - 1], raw[ARGS - 1])
static int sat(double d) { return d <= INT_MIN ? INT_MIN : d >= INT_MAX ? INT_MAX : (int)d; }
/* what became of argument a, described by now (was before, if it was described) */
static void argument(int d, int a, bool known, bool active, _vfi_argument_data_t *now, _vfi_argument_data_t *was) {
  int n = is_ptr(types[a]) ? sizes[a] : 1;
  bool there = a < NARGS && raw[a] != NULL;
  for (int j = 0; j < SZ; j++) {
    bool round = there && known && active && j < n;
    if (is64(types[a])) {
      uint64_t o = vf_u64(old_dv[a][j]), w = round ? R64(o, !d, was->exponent_length, was->mantissa_length) : o;
      POST(vf_same64(dv[a][j], vf_f64(w)), "each element of a double argument is rounded to its format, once, if the mode says so");
      POST(vf_same32(fv[a][j], old_fv[a][j]), "nothing else is written");
    } else {
      uint32_t o = vf_u32(old_fv[a][j]), w = round ? R32(o, !d, was->exponent_length, was->mantissa_length) : o;
      POST(vf_same32(fv[a][j], vf_f32(w)), "each element of a float argument is rounded to its format, once, if the mode says so");
      POST(vf_same64(dv[a][j], old_dv[a][j]), "nothing else is written");
    }
  }
  if (a >= NARGS)
    return;
  int lo = known ? was->min_range : INT_MAX, hi = known ? was->max_range : INT_MIN;
  for (int j = 0; j < SZ; j++)
    if (there && j < n) {
      bool finite = is64(types[a]) ? !VF_SPECIAL64(vf_u64(dv[a][j])) : !VF_SPECIAL32(vf_u32(fv[a][j]));
      if (finite) {
        int f = sat(is64(types[a]) ? vf_floor(dv[a][j]) : (float)vf_floor(fv[a][j]));
        int c = sat(is64(types[a]) ? vf_ceil(dv[a][j]) : (float)vf_ceil(fv[a][j]));
        lo = f < lo ? f : lo;
        hi = c > hi ? c : hi;
      }
    }
  POST(now->min_range == lo && now->max_range == hi, "the range recorded for an argument is that of all its finite values so far");
  if (known)
    POST(now->mantissa_length == was->mantissa_length && now->exponent_length == was->exponent_length && now->data_type == was->data_type,
         "the format of a known argument stays");
  else
    POST(now->mantissa_length == (is64(types[a]) ? 52 : 23) && now->exponent_length == (is64(types[a]) ? 11 : 8) &&
             now->data_type == types[a] && same(now->arg_id, ids[a]), "a new argument is recorded with its name, type and full format");
}
static bool same_arg(const _vfi_argument_data_t *a, const _vfi_argument_data_t *b) {
  return a->mantissa_length == b->mantissa_length && a->exponent_length == b->exponent_length && a->data_type == b->data_type &&
         a->min_range == b->min_range && a->max_range == b->max_range;
}
static bool same_fn(const _vfi_t *a, const _vfi_t *b) {
  return same(a->id, b->id) && a->isLibraryFunction == b->isLibraryFunction && a->isIntrinsicFunction == b->isIntrinsicFunction &&
         a->useFloat == b->useFloat && a->useDouble == b->useDouble && a->OpsRange64 == b->OpsRange64 && a->OpsPrec64 == b->OpsPrec64 &&
         a->OpsRange32 == b->OpsRange32 && a->OpsPrec32 == b->OpsPrec32 && a->nb_input_args == b->nb_input_args &&
         a->nb_output_args == b->nb_output_args;
}
static void frame(int k) {
  for (int i = 0; i < SLOTS; i++)
    for (int a = 0; a < ARGS; a++)
      POST(i == k || (same_fn(fn[i], old_fn[i]) && fn[i]->n_calls == old_fn[i]->n_calls && same_arg(&fargs[i][0][a], &old_args[i][0][a]) &&
                      same_arg(&fargs[i][1][a], &old_args[i][1][a]) && fn[i]->input_args == old_fn[i]->input_args &&
                      fn[i]->output_args == old_fn[i]->output_args),
           "the other functions are as they were");
  POST(ctx.mode == ctx0.mode && ctx.vfi == &vfi && vfi.map == &the_map && vfi.vprec_inst_mode == vfi0.vprec_inst_mode, "the modes are as they were");
}
#define SAME_OPS(c) (ctx.binary32_precision == (c)->binary32_precision && ctx.binary32_range == (c)->binary32_range && \
                     ctx.binary64_precision == (c)->binary64_precision && ctx.binary64_range == (c)->binary64_range)
#define FN_OPS(f) (ctx.binary32_precision == (f)->OpsPrec32 && ctx.binary32_range == (f)->OpsRange32 && \
                   ctx.binary64_precision == (f)->OpsPrec64 && ctx.binary64_range == (f)->OpsRange64)
/* f is the function called, described as o before (no description if o is NULL) */
static void entered(_vfi_t *f, const _vfi_t *o, _vfi_argument_data_t *in, _vfi_argument_data_t *was_in, _vfi_argument_data_t *out, _vfi_argument_data_t *was_out) {
  POST(inserted == (o ? 0 : 1), "enter: a function is recorded when first called");
  POST(f->n_calls == (o ? o->n_calls : 0) + 1, "enter: the call is counted");
  if (!o) {
    POST(ins_key[0] == vfc_hashmap_str_function(cur_id) && same(f->id, cur_id), "enter: under its name");
    POST(f->isLibraryFunction == cur.isLibraryFunction && f->isIntrinsicFunction == cur.isIntrinsicFunction && f->useFloat == cur.useFloat &&
             f->useDouble == cur.useDouble && f->OpsPrec64 == 52 && f->OpsRange64 == 11 && f->OpsPrec32 == 23 && f->OpsRange32 == 8 &&
             f->nb_output_args == 0 && f->output_args == NULL, "enter: with its attributes and full precision");
  }
  bool ops = !cur.isLibraryFunction && !cur.isIntrinsicFunction && (in_inst == vprecinst_op || in_inst == vprecinst_all);
  POST(ops ? FN_OPS(f) : SAME_OPS(&ctx0), "enter: operations take the precisions of a user function in modes operations and all, only");
  bool known = o && o->input_args != NULL;
  bool active = (in_mode == vprecmode_full || in_mode == vprecmode_ib) && (in_inst == vprecinst_all || in_inst == vprecinst_arg);
  POST(f->nb_input_args == NARGS && (known || NARGS == 0 || (f->input_args == apool[0] && calloc_n[0] >= NARGS)), "enter: its arguments are described");
  for (int a = 0; a < ARGS; a++)
    argument(0, a, known, active, known ? &in[a] : &apool[0][a], &was_in[a]);
  if (o)
    for (int a = 0; a < ARGS; a++)
      POST(same_arg(&out[a], &was_out[a]) && f->output_args == o->output_args && f->nb_output_args == o->nb_output_args, "enter: its outputs are as they were");
}
void h_enter(void) {
  setup();
  int k = find(cur_id);
  CALL(_vfi_enter_function);
  if (k == 0)
    entered(&fn0, &was0, a00, o00, a01, o01);
  else if (k == 1)
    entered(&fn1, &was1, a10, o10, a11, o11);
  else
    entered(&pool0, NULL, NULL, NULL, NULL, NULL);
  frame(k);
  POST(vfi.vprec_log_depth == vfi0.vprec_log_depth + 1, "enter: one level deeper");
  VF_REACH();
}
static void left(_vfi_t *f, const _vfi_t *o, _vfi_argument_data_t *in, _vfi_argument_data_t *was_in, _vfi_argument_data_t *out, _vfi_argument_data_t *was_out) {
  POST(inserted == 0 && f->n_calls == o->n_calls, "exit: counted once, at the call");
  bool known = o->output_args != NULL;
  bool active = (in_mode == vprecmode_full || in_mode == vprecmode_ob) && (in_inst == vprecinst_all || in_inst == vprecinst_arg);
  POST(f->nb_output_args == NARGS && (known || NARGS == 0 || (f->output_args == apool[0] && calloc_n[0] >= NARGS)), "exit: its outputs are described");
  for (int a = 0; a < ARGS; a++)
    argument(1, a, known, active, known ? &out[a] : &apool[0][a], &was_out[a]);
  for (int a = 0; a < ARGS; a++)
    POST(same_arg(&in[a], &was_in[a]) && f->input_args == o->input_args && f->nb_input_args == o->nb_input_args, "exit: its inputs are as they were");
}
void h_exit(void) {
  setup();
  int k = find(cur_id), kp = find(par_id);
  VF_ASSUME(k >= 0); /* it was called */
  CALL(_vfi_exit_function);
  bool ops = in_inst == vprecinst_op || in_inst == vprecinst_all;
  if (!ops)
    POST(SAME_OPS(&ctx0), "exit: outside modes operations and all the precision of operations stays");
  else if (arr[1] != NULL && !par.isLibraryFunction && !par.isIntrinsicFunction && kp >= 0)
    POST(kp == 0 ? FN_OPS(&fn0) : FN_OPS(&fn1), "exit: operations take the precisions of the caller again");
  if (k == 0)
    left(&fn0, &was0, a00, o00, a01, o01);
  else
    left(&fn1, &was1, a10, o10, a11, o11);
  frame(k);
  POST(vfi.vprec_log_depth == vfi0.vprec_log_depth - 1, "exit: one level up");
  VF_REACH();
}
/* ---- the profile: what is written is read back --------------------------------------------------- */
#ifndef SHAPE
#define SHAPE 3, 1, 0, 2, 1 /* which functions are there; inputs and outputs of each */
#endif
static const int shape[] = {SHAPE};
#define NT (SLOTS * (12 + 2 * 7 * ARGS) + 1)
typedef struct { const char *s; char lit[9]; int v; bool eol; } tok_t;
static tok_t toks[NT];
static int ntok, rtok;
static bool opened_w, opened_r;
static File *const the_file = (File *)&toks;
#ifdef VF_NATIVE
#define VA_CHAR int
#define VA_SHORT int
#else /* the verifier does not promote variable arguments */
#define VA_CHAR signed char
#define VA_SHORT short
#endif
static int s_fprintf(File *f, const char *fmt, ...) {
  if (f != the_file)
    return 0;
  va_list ap;
  va_start(ap, fmt);
  bool infield = false;
  int lit = 0;
  for (const char *p = fmt; *p; p++) {
    if (*p == '\t' || *p == '\n') {
      POST(infield, "profile: no empty field");
      toks[ntok].eol = *p == '\n';
      ntok++;
      infield = false;
      lit = 0;
    } else if (*p == '%') {
      POST(!infield && ntok < NT, "profile: one value in each field");
      infield = true;
      p++;
      int h = 0;
      while (*p == 'h') {
        h++;
        p++;
      }
      if (*p == 's')
        toks[ntok].s = va_arg(ap, char *);
      else {
        POST(*p == 'd', "profile: integers in decimal");
        toks[ntok].s = NULL;
        toks[ntok].v = h == 2 ? (signed char)va_arg(ap, VA_CHAR) : h == 1 ? (short)va_arg(ap, VA_SHORT) : va_arg(ap, int);
      }
    } else {
      POST(lit < 8 && (lit > 0 || !infield), "profile: literal fields");
      infield = true;
      toks[ntok].s = toks[ntok].lit;
      toks[ntok].lit[lit++] = *p;
      toks[ntok].lit[lit] = 0;
    }
  }
  va_end(ap);
  POST(!infield, "profile: lines end");
  return 0;
}
static bool has_line;
static char *s_fgets(char *s, int n, File *f) {
  POST(f == the_file && opened_r, "profile: read from the open file");
  if (rtok >= ntok)
    return NULL;
  has_line = true;
  s[0] = 'x';
  s[1] = 0;
  return s;
}
static char *s_strtok_r(char *s, const char *delim, char **save) {
  static char word[2][12];
  static int k;
  POST(delim[0] == '\t' && delim[1] == 0, "profile: fields end at tabs");
  if (!has_line)
    return NULL;
  char *w = word[k ^= 1];
  if (toks[rtok].s)
    s_strcpy(w, toks[rtok].s);
  else {
    w[0] = 1; /* a number */
    w[1] = (char)(rtok + 1);
    w[2] = 0;
  }
  if (toks[rtok].eol)
    has_line = false;
  rtok++;
  return w;
}
static long s_strtol(const char *s, char **end, int *error) {
  POST(s[0] == 1, "profile: numbers are where numbers are expected");
  *error = 0;
  return toks[(unsigned char)s[1] - 1].v;
}
static int closes;
static const char infile[] = "i", outfile[] = "o";
static File *s_fopen(const char *p, const char *m, int *e) {
  if (p == outfile) {
    POST(m[0] == 'w', "profile: written afresh");
    opened_w = true;
  } else {
    POST(p == infile && m[0] == 'r', "profile: the files named by the options");
    opened_r = true;
  }
  return the_file;
}
static int s_fclose(File *f) {
  closes++;
  return 0;
}
static void read_back(_vfi_t *w, bool live) {
  int k = -1;
  _vfi_t *r = NULL;
  for (int i = 0; i < SLOTS; i++)
    if (i < inserted && same(ins[i]->id, w->id)) {
      r = ins[i];
      k = i;
    }
  if (!live)
    return;
  POST(k >= 0, "profile: each function is read back");
  if (k < 0)
    return;
  POST(ins_key[k] == vfc_hashmap_str_function(w->id), "profile: under its name");
  POST(same_fn(r, w) && r->n_calls == w->n_calls, "profile: with its attributes and precisions");
  for (int a = 0; a < ARGS; a++) {
    if (a < w->nb_input_args)
      POST(same_arg(&r->input_args[a], &w->input_args[a]) && same(r->input_args[a].arg_id, w->input_args[a].arg_id), "profile: with its inputs");
    if (a < w->nb_output_args)
      POST(same_arg(&r->output_args[a], &w->output_args[a]) && same(r->output_args[a].arg_id, w->output_args[a].arg_id), "profile: with its outputs");
  }
  POST((w->nb_input_args != 0 || r->input_args == NULL) && (w->nb_output_args != 0 || r->output_args == NULL), "profile: without inputs or outputs it does not have yet");
}
void h_profile(void) {
  map_and_ctx();
  _vprec_log_file = NULL;
  vf_error_ok = false;
  int lives = 0;
  in_live = shape[0];
  for (int i = 0; i < SLOTS; i++) {
    any_fn(fn[i]);
    for (int j = 0; j < NAME; j++)
      VF_ASSUME((unsigned char)fn[i]->id[j] > 32 || (j > 0 && fn[i]->id[j] == 0));
    for (int d = 0; d < 2; d++) {
      int n = shape[1 + 2 * i + d];
      for (int a = 0; a < ARGS; a++) {
        VF_RANGE(type, 0, 4);
        any_arg(&fargs[i][d][a], in_type);
      }
      *(d ? &fn[i]->nb_output_args : &fn[i]->nb_input_args) = n;
      *(d ? &fn[i]->output_args : &fn[i]->input_args) = n ? fargs[i][d] : NULL;
    }
    put(i);
    lives += slot_live(i);
  }
  interflop_fprintf = s_fprintf;
  interflop_fgets = (interflop_fgets_t)s_fgets;
  interflop_strtok_r = s_strtok_r;
  interflop_strtol = s_strtol;
  interflop_fopen = s_fopen;
  interflop_fclose = s_fclose;
  ntok = rtok = nwords = 0;
  closes = 0;
  has_line = opened_w = opened_r = false;
  destroyed = emptied = 0;
  vfi.vprec_output_file = outfile;
  vfi.vprec_input_file = NULL;
  vfi.vprec_log_file = NULL;
  _vfi_finalize(&ctx);
  POST(opened_w && closes == 1 && destroyed == 1, "profile: written and closed at the end");
  vfi.vprec_output_file = NULL;
  vfi.vprec_input_file = infile;
  _vfi_init(&ctx);
  POST(opened_r && closes == 2, "profile: read and closed at the start");
  POST(inserted == lives, "profile: as many functions are read as were written");
  read_back(&fn0, slot_live(0));
  read_back(&fn1, slot_live(1));
  VF_REACH();
}
/* the backend loaded twice (its static variables are shared): nothing is freed or closed twice */
void h_twice(void) {
  static vprec_context_t c1, c2;
  static t_context_vfi v1, v2;
  map_and_ctx();
  _vprec_log_file = NULL;
  vf_error_ok = false;
  in_live = 0;
  the_map.nitems = 0;
  interflop_fopen = s_fopen;
  interflop_fclose = s_fclose;
  nwords = closes = destroyed = 0;
  opened_w = opened_r = false;
  c1.vfi = &v1;
  c2.vfi = &v2;
  VF_GET(log);
  v1.vprec_log_file = in_log & 1 ? outfile : NULL;
  v2.vprec_log_file = in_log & 2 ? outfile : NULL;
  _vfi_init(&c1);
  _vfi_init(&c2);
  _vfi_finalize(&c1);
  _vfi_finalize(&c2);
  POST(destroyed == 2, "twice: each instance frees its table");
  POST(closes <= (in_log & 1) + (in_log >> 1 & 1), "twice: no file is closed twice");
  VF_REACH();
}
/* ---- what the ranges rest on ---------------------------------------------------------------------- */
void h_class(void) {
  VF_GET(x);
  double d = vf_f64(in_x);
  float f = vf_f32((uint32_t)in_x);
  POST((interflop_isnan(d) != 0) == (d != d) && (interflop_isnan(f) != 0) == (f != f), "isnan holds for NaN only");
  POST((interflop_isinf(d) != 0) == (VF_MAG64(in_x) == 0x7ff0000000000000ULL) &&
           (interflop_isinf(f) != 0) == (VF_MAG32((uint32_t)in_x) == 0x7f800000u), "isinf holds for infinities only");
  VF_REACH();
}
