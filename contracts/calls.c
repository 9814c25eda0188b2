/* Function instrumentation in the runtime: the call stack, the table of functions and what the
 * backends are told at each call and return. Text under proof: src/vfcwrapper/main.c.in followed by
 * src/vfcwrapper/funcinstr.c, verbatim, as the makefile concatenates them. The hash map is
 * represented by its contract (C15). */
#include "vf.h"
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <math.h>
#include <errno.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <err.h>
#include <argp.h>
#include <printf.h>
#include <strings.h>
#include <string.h>
#include <sys/time.h>
#include <unistd.h>
#include <sys/types.h>
#include <sys/wait.h>
#define constructor(n) unused
#define destructor(n) unused
#ifndef VF_NATIVE
#undef NAN
#define NAN (0.0f / 0.0f)
#endif
#include "va_fresh.h"
#include "wrapper_env.h"
#include "main.c.in"
static unsigned allocs;
static void *vf_alloc(size_t n);
#define malloc vf_alloc
#include "funcinstr.c"
#undef malloc
#undef constructor
#undef destructor
#define SLOTS 3
#define NAME 2
#ifndef TOP
#define TOP 4094
#endif
#define DEPTH _VFC_CALL_STACK_MAXSIZE
/* ---- the table of functions, by the contract of the map -------------------------------------- */
static struct vfc_hashmap_st the_map;
static ISize_t table[2 * SLOTS];
static interflop_function_info_t infos[SLOTS], pool, *new_info;
static char names[SLOTS][NAME + 1], fname[NAME + 1];
static unsigned inserted;
static ISize_t new_key;
VF_INPUT(uint8_t, pick);
VF_INPUT(uint8_t, live);
VF_INPUT(uint8_t, c);
static void *vf_alloc(size_t n) {
  POST(n == sizeof pool && allocs == 0, "one description for a new function");
  allocs++;
  return &pool;
}
static bool slot_live(int i) { return in_live >> i & 1; }
static bool same(const char *a, const char *b) {
  bool r = true, end = false;
  for (int i = 0; i <= NAME; i++) {
    if (!end && a[i] != b[i])
      r = false;
    if (!end && a[i] == 0)
      end = true;
  }
  return r;
}
ISize_t get_value_at(ISize_t *items, ISize_t i) {
  POST(items == table && i < SLOTS, "asks for a slot of the table");
  return items[2 * i];
}
ISize_t get_key_at(ISize_t *items, ISize_t i) {
  POST(items == table && i < SLOTS, "asks for a slot of the table");
  return items[2 * i + 1];
}
void *vfc_hashmap_get(vfc_hashmap_t m, ISize_t k) {
  POST(m == &the_map, "this map");
  void *r = NULL;
  for (int i = 0; i < SLOTS; i++) {
    int j = (in_pick + i) % SLOTS;
    if (slot_live(j) && table[2 * j + 1] == k)
      r = &infos[j];
  }
  return r;
}
char vfc_hashmap_have(vfc_hashmap_t m, ISize_t k) { return vfc_hashmap_get(m, k) != NULL; }
void vfc_hashmap_insert(vfc_hashmap_t m, ISize_t k, void *v) {
  POST(m == &the_map, "this map");
  inserted++;
  new_key = k;
  new_info = v;
}
vfc_hashmap_t vfc_hashmap_create(void) { return &the_map; }
static unsigned destroyed, emptied;
void vfc_hashmap_free(vfc_hashmap_t m) {
  POST(m == &the_map && destroyed == 0, "this map");
  emptied++;
}
void vfc_hashmap_destroy(vfc_hashmap_t m) {
  POST(m == &the_map, "this map");
  destroyed++;
}
ISize_t vfc_hashmap_str_function(const char *s) {
#ifdef VF_NATIVE
  ISize_t h = 0;
  for (int i = 0; i < NAME && s[i]; i++)
    h = h * 31 + (unsigned char)s[i];
  return h;
#else
  static ISize_t key_of_new;
  static bool known;
  for (int i = 0; i < SLOTS; i++)
    if (slot_live(i) && same(s, names[i]))
      return table[2 * i + 1];
  POST(same(s, fname), "the key of the function's name");
  if (!known) {
    uint8_t k;
    key_of_new = k;
    known = true;
  }
  return key_of_new;
#endif
}
/* ---- backends ------------------------------------------------------------------------------ */
typedef struct { unsigned idx; } slot_t;
static slot_t slot[MAX_BACKENDS];
VF_INPUT(uint8_t, n);
VF_INPUT(uint16_t, mask);
VF_INPUT(uint16_t, mask2);
VF_INPUT(uint8_t, wi);
VF_INPUT(uint16_t, top);
VF_INPUT(uint8_t, flags);
VF_INPUT(uint8_t, nargs);
VF_INPUT(uint64_t, x1);
VF_INPUT(uint64_t, x2);
VF_INPUT(uint32_t, x3);
static int enter_calls, exit_calls, last_call, w_calls;
static bool in_order, args_ok, stack_ok;
static long want_top;
static interflop_function_info_t *seen;
static void told(interflop_function_stack_t *st, void *ctx, int n, va_list ap) {
  int i = ((slot_t *)ctx)->idx;
  if (i <= last_call)
    in_order = false;
  last_call = i;
  if (i == in_wi)
    w_calls++;
  if (st != &_vfc_call_stack || st->top != want_top)
    stack_ok = false;
  seen = st->array[st->top];
  if (n != in_nargs)
    args_ok = false;
  VA_READ();
  if (in_nargs > 0) {
    int t = va_arg(ap, int);
    char *id = va_arg(ap, char *);
    unsigned size = va_arg(ap, unsigned);
    void *p = va_arg(ap, void *);
    if (t != 1 || (uint64_t)id != in_x1 || size != in_x3 || (uint64_t)p != in_x2)
      args_ok = false;
  }
  if (in_nargs > 1) {
    int t = va_arg(ap, int);
    char *id = va_arg(ap, char *);
    unsigned size = va_arg(ap, unsigned);
    void *p = va_arg(ap, void *);
    if (t != 3 || (uint64_t)id != in_x2 || size != 7 || (uint64_t)p != in_x1)
      args_ok = false;
  }
}
static void s_enter(interflop_function_stack_t *st, void *ctx, int n, va_list ap) {
  enter_calls++;
  told(st, ctx, n, ap);
}
static void s_exit(interflop_function_stack_t *st, void *ctx, int n, va_list ap) {
  exit_calls++;
  told(st, ctx, n, ap);
}
static interflop_function_info_t *arr[DEPTH], *old_near[7];
/* the stack near its top */
#define NEAR(i) ((int)TOP - 3 + (i))
#define IN(i) (NEAR(i) >= 0 && NEAR(i) < DEPTH)

static void name(char *s) {
#ifdef VF_NATIVE
  static const char few[][3] = {"Aa", "BB", "C", "", "D", "Aa", "BB", "C"};
  int r = vf_searching() ? vf_pick() % 9 : 8; /* names that share their hash are common */
#endif
  for (int i = 0; i < NAME; i++) {
    VF_GET(c);
#ifdef VF_NATIVE
    if (r < 8) {
      in_c = few[r][i < 2 ? i : 2];
      vf_record("in_c", &in_c, 1);
    }
#endif
    s[i] = (char)in_c;
  }
  s[NAME] = 0;
}
static void setup(void) {
  VF_RANGE(n, 0, MAX_BACKENDS);
  VF_GET(mask);
  VF_GET(mask2);
  VF_RANGE(wi, 0, MAX_BACKENDS - 1);
  VF_RANGE(pick, 0, SLOTS - 1);
  VF_GET(live);
  VF_GET(flags);
  VF_RANGE(nargs, 0, 2);
  VF_GET(x1); VF_GET(x2); VF_GET(x3);
  in_top = TOP; /* the code looks at the stack only from its top; the end mark is at the bottom */
  loaded_backends = in_n;
  for (int i = 0; i < MAX_BACKENDS; i++) {
    slot[i].idx = i;
    contexts[i] = &slot[i];
    backends[i].interflop_enter_function = in_mask >> i & 1 ? s_enter : NULL;
    backends[i].interflop_exit_function = in_mask2 >> i & 1 ? s_exit : NULL;
  }
  the_map.capacity = SLOTS;
  the_map.items = table;
  _vfc_func_map = &the_map;
  for (int i = 0; i < SLOTS; i++) {
    name(names[i]);
    infos[i].id = names[i];
    table[2 * i] = slot_live(i) ? (ISize_t)&infos[i] : 0;
#ifdef VF_NATIVE
    table[2 * i + 1] = vfc_hashmap_str_function(names[i]);
#else
    uint8_t h;
    table[2 * i + 1] = h;
#endif
    for (int j = 0; j < i; j++)
      VF_ASSUME(!(slot_live(i) && slot_live(j)) || !same(names[i], names[j]));
  }
  _vfc_call_stack.array = arr;
  _vfc_call_stack.top = in_top;
  for (int i = 0; i < 7; i++)
    if (IN(i)) {
#ifndef VF_NATIVE
      interflop_function_info_t *any;
      arr[NEAR(i)] = any;
#else
      arr[NEAR(i)] = &infos[i % SLOTS];
#endif
      old_near[i] = arr[NEAR(i)];
    }
  name(fname);
  allocs = inserted = 0;
  enter_calls = exit_calls = w_calls = 0;
  last_call = -1;
  in_order = args_ok = stack_ok = true;
  seen = NULL;
}
static int implementers(uint16_t m) {
  int k = 0;
  for (int i = 0; i < MAX_BACKENDS; i++)
    k += i < in_n && (m >> i & 1);
  return k;
}
#define FL(b) ((char)(in_flags >> (b) & 1))
#define CALL(f)                                                                                     \
  f(fname, FL(0), FL(1), FL(2), FL(3), in_nargs, 1, (char *)in_x1, in_x3, (void *)in_x2, 3, (char *)in_x2, 7, (void *)in_x1)
void h_enter(void) {
  setup();
  int k = -1;
  for (int i = 0; i < SLOTS; i++)
    if (slot_live(i) && same(names[i], fname))
      k = i;
  interflop_function_info_t old = infos[k >= 0 ? k : 0];
  vf_error_ok = in_top == 0;
  want_top = (long)in_top - 1;
  CALL(vfc_enter_function);
  POST(!vf_error_ok, "enter: a call too deep is an error");
  POST(_vfc_call_stack.top == in_top - 1 && _vfc_call_stack.array == arr, "enter: the stack grows by one");
  interflop_function_info_t *e = arr[in_top - 1];
  if (k >= 0)
    POST(e == &infos[k] && inserted == 0 && e->useFloat == old.useFloat && e->useDouble == old.useDouble && e->id == old.id,
         "enter: a function seen before is the one called, as it was recorded");
  else {
    POST(inserted == 1 && new_info == e && new_key == vfc_hashmap_str_function(fname), "enter: a new function is recorded once, under its name");
    POST(same(e->id, fname) && e->isLibraryFunction == FL(0) && e->isIntrinsicFunction == FL(1) && e->useFloat == FL(2) && e->useDouble == FL(3),
         "enter: with its attributes");
  }
  for (int i = 0; i < 7; i++)
    if (IN(i))
      POST(NEAR(i) == in_top - 1 || arr[NEAR(i)] == old_near[i], "enter: its callers stay on the stack");
  bool fp = FL(2) || FL(3);
  POST(enter_calls == (fp ? implementers(in_mask) : 0) && exit_calls == 0 && w_calls == (fp && in_wi < in_n && (in_mask >> in_wi & 1)),
       "enter: each backend that asks for it is told, once, of a function that uses floats or doubles");
  POST(in_order && args_ok && stack_ok && (seen == NULL || seen == e), "enter: in order, with the stack, the function on top, and all the arguments");
  VF_REACH();
}
void h_exit(void) {
  setup();
  VF_ASSUME(in_top < DEPTH - 1);
  vf_error_ok = false;
  want_top = in_top;
  interflop_function_info_t *cur = arr[in_top];
  CALL(vfc_exit_function);
  POST(_vfc_call_stack.top == in_top + 1 && _vfc_call_stack.array == arr, "exit: the function leaves the stack");
  for (int i = 0; i < 7; i++)
    if (IN(i))
      POST(arr[NEAR(i)] == old_near[i] && inserted == 0, "exit: the rest is as it was");
  bool fp = FL(2) || FL(3);
  POST(exit_calls == (fp ? implementers(in_mask2) : 0) && enter_calls == 0 && w_calls == (fp && in_wi < in_n && (in_mask2 >> in_wi & 1)),
       "exit: each backend that asks for it is told, once, of a function that uses floats or doubles");
  POST(in_order && args_ok && stack_ok && (seen == NULL || seen == cur), "exit: in order, with the function still on top, and all the arguments");
  VF_REACH();
}
/* the stack from its creation: empty, then last in, first out */
static unsigned long asked;
static void *m_malloc(size_t n) {
  asked = n;
  return arr;
}
static unsigned frees;
static void m_free(void *p) {
  POST(p == arr, "quit: the stack is freed");
  frees++;
}
void h_init(void) {
  interflop_malloc = m_malloc;
  interflop_free = m_free;
  vfc_init_func_inst();
  POST(asked >= sizeof arr && _vfc_call_stack.array == arr && _vfc_func_map == &the_map, "init: stack and table are there");
  POST(_vfc_call_stack.top == DEPTH - 1 && arr[DEPTH - 1] == NULL, "init: nothing is on the stack but the end mark");
  frees = destroyed = emptied = 0;
  vfc_quit_func_inst();
  POST(frees == 1 && destroyed == 1 && emptied == 1, "quit: stack, functions and table are freed, once");
  VF_REACH();
}
