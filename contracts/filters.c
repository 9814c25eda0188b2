/* Delta-debug filters: which addresses a run selects, and the list a generating run writes. Text under
 * proof: src/vfcwrapper/main.c.in with DDEBUG, verbatim, from vfc_init and vfc_atexit. One backend, always
 * loaded (C14 is about the rest of startup); the C library and the hash map by stand-ins. */
#define DDEBUG 1
#include "vf.h"
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <math.h>
#include <errno.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <err.h>
#include <argp.h>
#include <printf.h>
#include <strings.h>
#include <sys/time.h>
#include <unistd.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <assert.h>
#define constructor(n) unused
#define destructor(n) unused
#ifndef VF_NATIVE
#undef NAN
#define NAN (0.0f / 0.0f)
#endif
#include "wrapper_env.h"
#define LINES 2
VF_INPUT(uint8_t, set);     /* which of the variables INCLUDE, EXCLUDE, GEN are set */
VF_INPUT(uint8_t, openf);   /* which files can be opened */
VF_INPUT(uint8_t, nlines0); /* lines of the inclusion file */
VF_INPUT(uint8_t, nlines1); /* of the exclusion file */
VF_INPUT(uint8_t, bad);     /* lines that hold no address */
VF_INPUT(uint64_t, a00);
VF_INPUT(uint64_t, a01);
VF_INPUT(uint64_t, a10);
VF_INPUT(uint64_t, a11);
static uint64_t addr_of(int f, int l) { return f ? (l ? in_a11 : in_a10) : (l ? in_a01 : in_a00); }
static int nlines(int f) { return f ? in_nlines1 : in_nlines0; }
static bool is_bad(int f, int l) { return in_bad >> (2 * f + l) & 1; }
static int files[2], at[2], closes;
static char p_inc[] = "I", p_exc[] = "E", p_gen[] = "G", backends_s[] = "B";
static char *dd_getenv(const char *n) {
  if (strcmp(n, "VFC_BACKENDS") == 0)
    return backends_s;
  if (strcmp(n, "VFC_DDEBUG_INCLUDE") == 0)
    return in_set & 1 ? p_inc : NULL;
  if (strcmp(n, "VFC_DDEBUG_EXCLUDE") == 0)
    return in_set & 2 ? p_exc : NULL;
  if (strcmp(n, "VFC_DDEBUG_GEN") == 0)
    return in_set & 4 ? p_gen : NULL;
  return NULL;
}
static FILE *dd_fopen(const char *p, const char *m) {
  int f = p[0] == 'I' ? 0 : p[0] == 'E' ? 1 : -1;
  POST(f >= 0 && m[0] == 'r', "filters: the files read are those named, and they are left as they are");
  at[f] = 0;
  return in_openf >> f & 1 ? (FILE *)&files[f] : NULL;
}
static int dd_fclose(FILE *f) {
  closes++;
  return 0;
}
static int cur_f, cur_l;
static char *dd_fgets(char *s, int n, FILE *fp) {
  int f = fp == (FILE *)&files[1];
  POST(f || fp == (FILE *)&files[0], "filters: read from an open file");
  if (at[f] >= nlines(f))
    return NULL;
  cur_f = f;
  cur_l = at[f]++;
#ifdef VF_NATIVE
  if (is_bad(cur_f, cur_l))
    snprintf(s, n, "not an address\n");
  else
    snprintf(s, n, "0x%lx: main at p.c:3\n", (unsigned long)addr_of(cur_f, cur_l));
#else
  s[0] = '0';
  s[1] = 0;
#endif
  return s;
}
#ifndef VF_NATIVE
static int dd_sscanf(const char *s, const char *fmt, void **p) {
  POST(fmt[0] == '%' && fmt[1] == 'p' && fmt[2] == 0, "filters: a line starts with an address");
  if (is_bad(cur_f, cur_l))
    return 0;
  *p = (void *)addr_of(cur_f, cur_l);
  return 1;
}
#define sscanf dd_sscanf
static bool tok_semi, tok_word;
static char *dd_strtok_r(char *s, const char *delim, char **save) {
  bool *t = delim[0] == ';' ? &tok_semi : &tok_word;
  if (s) {
    *t = true;
    return s;
  }
  *t = false;
  return NULL;
}
#define strtok_r dd_strtok_r
static char *dd_strdup(const char *s) { return (char *)s; }
#define strdup dd_strdup
static int dd_sprintf(char *s, const char *f, ...) { strcpy(s, f); return 0; } /* no conversion in the uses here */
#define sprintf dd_sprintf
static char *dd_strerror(int e) { return ""; }
#define strerror dd_strerror
static int the_errno;
#undef errno
#define errno the_errno
#endif
static int lib;
static void *dd_dlopen(const char *n, int f) { return &lib; }
static char *dd_dlerror(void) { return NULL; }
static void *dd_dlsym(void *h, const char *name);
/* processes: the child is looked at for one of the forks, any */
VF_INPUT(uint8_t, child);
static int forks, waits, outs, dups;
static char *num_buf; /* what the address was printed into */
static uint64_t printed;
static char *exe_buf;
static pid_t dd_fork(void) { return forks++ == in_child ? 0 : 1234; }
static pid_t dd_getppid(void) { return 77; }
static pid_t dd_wait(int *st) {
  waits++;
  *st = 0;
  return 1234;
}
static int dd_open(const char *p, int flags, ...) {
  POST(p == p_gen, "generate: the file named is written");
  POST((flags & O_ACCMODE) != O_RDONLY && (flags & O_CREAT) && (flags & O_TRUNC), "generate: the list replaces an earlier one");
  outs++;
  return in_openf & 4 ? 9 : -1;
}
static int dd_close(int fd) {
  POST(fd == 9, "generate: the file is closed");
  outs += 16;
  return 0;
}
static int dd_dup2(int a, int b) {
  POST(a == 9 && b == 1, "generate: the list gets what is printed");
  dups++;
  return b;
}
static int dd_snprintf(char *s, size_t n, const char *fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  if (fmt[0] == '%' && fmt[1] == 'p') {
    num_buf = s;
    printed = (uint64_t)va_arg(ap, void *);
    POST(n >= 19, "generate: an address fits its buffer");
  } else {
    exe_buf = s;
    POST(va_arg(ap, int) == 77, "generate: the executable is that of the program");
  }
  s[0] = 0;
  va_end(ap);
  return 1;
}
#define SLOTS 3
static struct vfc_hashmap_st *must, *mustnot;
static size_t table[2 * SLOTS];
VF_INPUT(uint64_t, v0);
VF_INPUT(uint64_t, v1);
VF_INPUT(uint64_t, v2);
static int nth_live(int k) {
  int r = -1;
  for (int i = 0; i < SLOTS; i++)
    if (table[2 * i] > 1 && k-- == 0)
      r = i;
  return r;
}
static int dd_execlp(const char *f, const char *a0, ...) {
  va_list ap;
  va_start(ap, a0);
  bool addr_given = false, exe_given = false;
  for (int i = 0; i < 4; i++) {
    char *w = va_arg(ap, char *);
    addr_given |= w == num_buf;
    exe_given |= w == exe_buf;
  }
  va_end(ap);
  int k = nth_live(in_child);
  POST(k >= 0 && addr_given && exe_given && dups == 1 && printed == table[2 * (k < 0 ? 0 : k)] - 5,
       "generate: each address executed is written to the list, as that of the operation");
  VF_STOP();
  return -1;
}
#define getenv dd_getenv
#define fopen dd_fopen
#define fclose dd_fclose
#define fgets dd_fgets
#define dlopen dd_dlopen
#define dlsym dd_dlsym
#define dlerror dd_dlerror
#define fork dd_fork
#define getppid dd_getppid
#define wait dd_wait
#define open dd_open
#define close dd_close
#define dup2 dd_dup2
#define snprintf dd_snprintf
#define execlp dd_execlp
#include "main.c.in"
#undef constructor
#undef destructor
#undef snprintf
static int ctx;
static void b_set(const char *n, void *f) {}
static void b_pre(interflop_panic_t p, FILE *s, void **c) { *c = &ctx; }
static void b_cli(int n, char **v, void *c) {}
static void f_ff(float a, float b, float *c, void *x) {}
static void f_dd(double a, double b, double *c, void *x) {}
static struct interflop_backend_interface_t b_init(void *c) {
  struct interflop_backend_interface_t t = {0};
  t.interflop_add_float = t.interflop_sub_float = t.interflop_mul_float = t.interflop_div_float = f_ff;
  t.interflop_add_double = t.interflop_sub_double = t.interflop_mul_double = t.interflop_div_double = f_dd;
  return t;
}
static void *dd_dlsym(void *h, const char *name) {
  return strcmp(name, "interflop_pre_init") == 0 ? (void *)b_pre
       : strcmp(name, "interflop_cli") == 0      ? (void *)b_cli
       : strcmp(name, "interflop_init") == 0     ? (void *)b_init
                                                 : (void *)b_set;
}
/* ---- the map, by its contract (C15) ------------------------------------------- */
static struct vfc_hashmap_st maps[2];
static int created, ins[2], destroyed[2];
static size_t keys[2][LINES + 1];
vfc_hashmap_t vfc_hashmap_create(void) {
  POST(created < 2, "filters: two maps");
  return &maps[created++];
}
void vfc_hashmap_destroy(vfc_hashmap_t m) {
  if (m)
    destroyed[m == &maps[1]]++;
}
void vfc_hashmap_insert(vfc_hashmap_t m, size_t k, void *v) {
  int i = m == &maps[1];
  POST(m == &maps[0] || i, "filters: inserted in a map");
  POST((size_t)v > 1 && ins[i] < LINES, "filters: one element for each line");
  keys[i][ins[i]++] = k;
}
size_t vfc_hashmap_num_items(vfc_hashmap_t m) { return ins[m == &maps[1]]; }
size_t get_value_at(size_t *items, size_t i) {
  POST(items == table && i < SLOTS, "generate: asks for a slot of the table");
  return items[2 * i];
}
size_t get_key_at(size_t *items, size_t i) {
  POST(items == table && i < SLOTS, "generate: asks for a slot of the table");
  return items[2 * i + 1];
}
/* not used at start or at exit */
char vfc_hashmap_have(vfc_hashmap_t m, size_t k) { return 0; }
void *vfc_hashmap_get(vfc_hashmap_t m, size_t k) { return NULL; }
static void inputs(void) {
  VF_GET(set);
  VF_GET(openf);
  VF_RANGE(nlines0, 0, LINES);
  VF_RANGE(nlines1, 0, LINES);
  VF_GET(bad);
#ifdef VF_NATIVE
  if (vf_searching()) { /* mostly files that can be read */
    if (vf_pick() % 4) in_bad = 0;
    if (vf_pick() % 4) in_openf = 7;
    vf_record("in_bad", &in_bad, 1);
    vf_record("in_openf", &in_openf, 1);
  }
#endif
  VF_GET(a00);
  VF_GET(a01);
  VF_GET(a10);
  VF_GET(a11);
  VF_ASSUME(in_a00 < 1ULL << 48 && in_a01 < 1ULL << 48 && in_a10 < 1ULL << 48 && in_a11 < 1ULL << 48);
  at[0] = at[1] = closes = created = forks = waits = outs = dups = 0;
  ins[0] = ins[1] = destroyed[0] = destroyed[1] = 0;
  backends_s[0] = 'B';
}
void h_filters(void) {
  inputs();
  loaded_backends = already_initialized = 0;
  bool ok = !((in_set & 1) && (in_set & 4));
  for (int f = 0; f < 2; f++)
    if (in_set >> f & 1) {
      if (!(in_openf >> f & 1))
        ok = false;
      for (int l = 0; l < LINES; l++)
        if (l < nlines(f) && is_bad(f, l))
          ok = false;
    }
  vf_error_ok = !ok;
  vfc_init();
  POST(ok, "filters: an unreadable or malformed filter, or a list both used and generated, stops the program at start");
  POST(dd_must_instrument != dd_mustnot_instrument, "filters: two lists");
  int m0 = dd_must_instrument == &maps[1], m1 = !m0;
  POST((dd_include_path != NULL) == (in_set & 1) && (dd_exclude_path != NULL) == (in_set >> 1 & 1) && (dd_generate_path != NULL) == (in_set >> 2 & 1),
       "filters: each list applies when its variable is set");
  POST(ins[m0] == (in_set & 1 ? nlines(0) : 0) && ins[m1] == (in_set & 2 ? nlines(1) : 0), "filters: as many addresses as lines");
  for (int l = 0; l < LINES; l++) {
    if (l < ins[m0])
      POST(keys[m0][l] == addr_of(0, l) + 5, "filters: each address of the inclusion file is selected, as that of its call");
    if (l < ins[m1])
      POST(keys[m1][l] == addr_of(1, l) + 5, "filters: each address of the exclusion file is left out, as that of its call");
  }
  VF_REACH();
}
void h_generate(void) {
  inputs();
  VF_GET(v0);
  VF_GET(v1);
  VF_GET(v2);
  VF_RANGE(child, 0, SLOTS);
#ifdef VF_NATIVE
  if (vf_searching()) {
    in_v0 %= 3; in_v0 *= 4096; in_v1 %= 3; in_v1 *= 4096;
    vf_record("in_v0", &in_v0, 8); vf_record("in_v1", &in_v1, 8);
  }
#endif
  table[0] = in_v0;
  table[2] = in_v1;
  table[4] = in_v2;
  maps[0].capacity = SLOTS;
  maps[0].items = table;
  dd_must_instrument = &maps[0];
  dd_mustnot_instrument = &maps[1];
  dd_include_path = dd_exclude_path = NULL;
  dd_generate_path = in_set & 4 ? p_gen : NULL;
  loaded_backends = 0;
  int live = 0;
  for (int i = 0; i < SLOTS; i++) {
    VF_ASSUME(table[2 * i] < 2 || table[2 * i] > 5);
    live += table[2 * i] > 1;
  }
  vf_error_ok = !(in_openf & 4) && (in_set & 4);
  vfc_atexit();
  POST(!vf_error_ok, "generate: a list that cannot be written is an error");
  if (in_set & 4)
    POST(forks == live && waits == live && outs == 17 && in_child >= live, "generate: one line for each address, and the file is closed");
  else
    POST(forks == 0 && outs == 0, "generate: nothing is written unless asked for");
  POST(destroyed[0] == 1 && destroyed[1] == 1, "generate: both lists are freed");
  VF_REACH();
}
