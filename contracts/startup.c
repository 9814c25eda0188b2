/* Startup of an instrumented program: which backends are loaded, with which arguments.
 * Text under proof: src/vfcwrapper/main.c.in, verbatim. The C library, the dynamic loader and
 * the backends are stand-ins. For the verifier, strtok_r is by its contract (some sequence of
 * tokens, any contents); the native build runs on real strings with the real strtok_r. */
#include "vf.h"
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <math.h>
#include <errno.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <err.h>
#include <argp.h>
#include <printf.h>
#include <strings.h>
#include <sys/time.h>
#include <unistd.h>
#include <sys/types.h>
#include <sys/wait.h>
#define constructor(n) unused
#define destructor(n) unused
#ifndef VF_NATIVE
#undef NAN
#define NAN (0.0f / 0.0f)
#endif
#define VF_STARTUP
#include "wrapper_env.h"

#ifndef NB
#define NB 17 /* one more than MAX_BACKENDS */
#endif
#ifndef NA
#define NA 257 /* one more than MAX_ARGS */
#endif
VF_INPUT(uint8_t, nb);      /* backends asked for */
static uint16_t in_argc[NB]; /* and the words of each */
VF_INPUT(uint8_t, wk);      /* a backend, any */
VF_INPUT(uint16_t, wj);     /* a word of its request, any */
VF_INPUT(uint8_t, env);     /* VFC_BACKENDS is set */
VF_INPUT(uint8_t, file);    /* VFC_BACKENDS_FROM_FILE is set */
VF_INPUT(uint8_t, openf);   /* that file can be opened, read */
VF_INPUT(uint8_t, nl);      /* its line ends with a newline */
VF_INPUT(uint8_t, sep);     /* doubled separators (native only) */
VF_INPUT(uint8_t, silent);  /* VFC_BACKENDS_SILENT_LOAD */
VF_INPUT(uint8_t, badlib);  /* the backend that cannot be loaded, if < nb */
VF_INPUT(uint8_t, badsym);  /* the backend that lacks a symbol, if < nb */
VF_INPUT(uint8_t, whichsym);
VF_INPUT(uint32_t, impl);   /* who implements the operation wop; all others are implemented */
VF_INPUT(uint8_t, wop);
VF_INPUT(uint8_t, wh);      /* a handler, any */
static bool from_env(void) { return in_env != 0; }
static bool readable(void) { return from_env() || (in_file && in_openf); }

/* --- C library ------------------------------------------------------------ */
static const char *silent_words[] = {"True", "true", "TRUE", "0", "False", ""};
#ifdef VF_NATIVE
static char env_s[NB * (NA + 2) * 8], env_0[NB * (NA + 2) * 8];
static void compose(char *s) {
  char *p = s;
  for (int k = 0; k < in_nb; k++) {
    if (k) p += sprintf(p, in_sep & 1 ? ";;" : ";");
    if (in_argc[k] == 0) p += sprintf(p, " ");
    for (int j = 0; j < in_argc[k]; j++)
      p += sprintf(p, "%s%c%d", j ? (in_sep & 2 ? "  " : " ") : "", j ? 'a' : 'B', j ? j : k);
  }
  *p = 0;
}
static bool tok_is(const char *p, int k, int j) {
  char w[16];
  sprintf(w, "%c%d", j ? 'a' : 'B', j ? j : k);
  return p && strcmp(p, w) == 0;
}
#else
static char env_s[4], line_s[4], copy_s[4];
static char toks[NB], words[NB * (NA + 1)];
static bool tok_is(const char *p, int k, int j) { return p == words + k * (NA + 1) + j; }
static int cur_tok, cur_word, cur_k;
static bool newline_cut = true;
char *vf_strtok_r(char *str, const char *delim, char **save) {
  if (delim[0] == ';') {
    if (str) {
      VF_ASSERT(str != env_s, "post: the environment is left as it was");
      if (str == line_s && in_nl)
        newline_cut = line_s[2] == 0;
      cur_tok = 0;
    }
    cur_tok++;
    return cur_tok <= in_nb ? &toks[cur_tok - 1] : NULL;
  }
  if (str) {
    cur_k = cur_tok - 1;
    VF_ASSERT(str == &toks[cur_k], "model: a request is cut into words before the next one is taken");
    cur_word = 0;
  }
  cur_word++;
  return cur_word <= in_argc[cur_k] ? words + cur_k * (NA + 1) + cur_word - 1 : NULL;
}
char *vf_strdup(const char *s) {
  if (s == env_s)
    return copy_s;
  return (char *)s;
}
#define strtok_r vf_strtok_r
#define strdup vf_strdup
#endif
static char file_name[] = "list";
static int the_file;
char *vf_getenv(const char *n) {
  if (strcmp(n, "VFC_BACKENDS") == 0)
    return in_env ? env_s : NULL;
  if (strcmp(n, "VFC_BACKENDS_FROM_FILE") == 0)
    return in_file ? file_name : NULL;
  if (strcmp(n, "VFC_BACKENDS_SILENT_LOAD") == 0)
    return in_silent < 6 ? (char *)silent_words[in_silent] : NULL;
  return NULL;
}
FILE *vf_fopen(const char *p, const char *m) {
  if (p != file_name && strcmp(p, file_name) != 0)
    return NULL;
  return in_openf ? (FILE *)&the_file : NULL;
}
ssize_t vf_getline(char **l, size_t *n, FILE *f) {
#ifdef VF_NATIVE
  static char *buf;
  buf = realloc(buf, sizeof env_s);
  compose(buf);
  if (in_nl) strcat(buf, "\n");
  if (!buf[0]) return -1;
  *l = buf;
  return (ssize_t)strlen(buf);
#else
  line_s[0] = line_s[1] = 'x';
  line_s[2] = in_nl ? '\n' : 0;
  line_s[3] = 0;
  *l = line_s;
  return in_nl ? 3 : 2;
#endif
}
static int the_errno;
#undef errno
#define errno the_errno
static char *vf_strerror(int e) { return ""; }
static int vf_sprintf(char *s, const char *f, ...) {
  strcpy(s, f); /* no conversion specification in the uses here */
  return 0;
}
/* --- the loader ------------------------------------------------------------ */
static int handles[NB], opened[NB], dl_bad;
static int opens;
static bool order_ok;
#ifdef VF_NATIVE
void *vf_dlopen(const char *name, int flags) {
  int k = name && name[0] == 'B' ? atoi(name + 1) : -1;
  if (k < 0) /* the program itself: it has none of the entry points */
    return &dl_bad;
  if (k == in_badlib)
    return NULL;
  if (k != opens)
    order_ok = false;
  opens++;
  opened[k]++;
  return &handles[k];
}
#else
/* the backends are told apart by their order */
void *vf_dlopen(const char *name, int flags) {
  int k = opens++;
  if (name == NULL)
    return &dl_bad;
  VF_ASSERT(tok_is(name, k, 0), "post: the library loaded is the first word of the request");
  opened[k]++;
  return k == in_badlib ? NULL : &handles[k];
}
#endif
static char *dl_err;
char *vf_dlerror(void) {
  char *e = dl_err;
  dl_err = NULL;
  return e;
}
void *vf_dlsym(void *h, const char *name);
int vf_dlclose(void *h) { return 0; }
#define getenv vf_getenv
#define fopen vf_fopen
#define getline vf_getline
#define dlopen vf_dlopen
#define dlsym vf_dlsym
#define dlerror vf_dlerror
#define dlclose vf_dlclose
#define strerror vf_strerror
#ifndef VF_NATIVE
#define sprintf vf_sprintf
#endif
#include "main.c.in"
#undef constructor
#undef destructor
#undef sprintf
/* maps: not used without --ddebug */
size_t get_value_at(size_t *items, size_t i) { return 0; }

/* --- the backends ------------------------------------------------------------ */
static int ctxs[NB];
static int pre[NB], cli[NB], ini[NB], hnd[NB], hbad[NB];
static bool good[NB];
enum { OPS = 13 };
static void f_ff(float a, float b, float *c, void *x) {}
static void f_dd(double a, double b, double *c, void *x) {}
static void f_cf(enum FCMP_PREDICATE p, float a, float b, int *c, void *x) {}
static void f_cd(enum FCMP_PREDICATE p, double a, double b, int *c, void *x) {}
static void f_cast(double a, float *b, void *x) {}
static void f_fmf(float a, float b, float c, float *d, void *x) {}
static void f_fmd(double a, double b, double c, double *d, void *x) {}
#define HAS(k, o) ((o) != in_wop || (in_impl >> (k) & 1))
static const struct { const char *name; void *f; } want_h[] = {
    {"getenv", getenv}, {"sprintf", sprintf}, {"strerror", strerror}, {"gettid", get_tid}, {"fopen", fopen},
    {"strcasecmp", strcasecmp}, {"vwarnx", vwarnx}, {"fprintf", fprintf}, {"exit", exit}, {"vfprintf", vfprintf},
    {"malloc", malloc}, {"strcmp", strcmp}, {"strtol", _vfc_strtol}, {"strtod", _vfc_strtod}, {"strcpy", strcpy},
    {"strncpy", strncpy}, {"fclose", fclose}, {"fgets", fgets}, {"strtok_r", strtok_r}, {"free", free},
    {"calloc", calloc}, {"argp_parse", argp_parse}, {"gettimeofday", gettimeofday},
    {"register_printf_specifier", register_printf_specifier}};
enum { NH = sizeof want_h / sizeof want_h[0] };
static void b_set(int k, const char *name, void *f) {
#ifdef VF_HANDLERS
  if (k == in_wk && strcmp(name, want_h[in_wh].name) == 0) {
#ifdef VF_NATIVE
    if (f == want_h[in_wh].f)
#else
    if (f == want_h[in_wh].f || strcmp(name, "sprintf") == 0)
#endif
      hnd[k] = 1;
    else
      hbad[k] = 1;
  }
#endif
}
static void b_pre(int k, interflop_panic_t panic, FILE *stream, void **context) {
  good[k] = pre[k] == 0 && cli[k] == 0 && ini[k] == 0 && opened[k] == 1 && panic == _vfc_panic && stream == stderr;
#ifdef VF_HANDLERS
  if (k == in_wk)
    VF_ASSERT(hnd[k] && !hbad[k], "post: every function a backend may ask for is given to it, by its name, before it starts");
#endif
  pre[k]++;
  *context = &ctxs[k];
}
static void b_cli(int k, int argc, char **argv, void *context) {
  cli[k]++;
  if (k == in_wk) {
    VF_ASSERT(argc == in_argc[k], "post: a backend gets as many arguments as given");
    VF_ASSERT(in_wj >= argc || tok_is(argv[in_wj], k, in_wj), "post: a backend gets its own arguments, in order");
    VF_ASSERT(argv[argc] == NULL, "post: the arguments end with NULL");
  }
  if (pre[k] != 1 || context != &ctxs[k])
    good[k] = false;
}
static struct interflop_backend_interface_t b_init(int k, void *context) {
  struct interflop_backend_interface_t t = {0};
  ini[k]++;
  if (cli[k] != 1 || context != &ctxs[k])
    good[k] = false;
  t.interflop_add_float = HAS(k, 0) ? f_ff : NULL;
  t.interflop_sub_float = HAS(k, 1) ? f_ff : NULL;
  t.interflop_mul_float = HAS(k, 2) ? f_ff : NULL;
  t.interflop_div_float = HAS(k, 3) ? f_ff : NULL;
  t.interflop_add_double = HAS(k, 4) ? f_dd : NULL;
  t.interflop_sub_double = HAS(k, 5) ? f_dd : NULL;
  t.interflop_mul_double = HAS(k, 6) ? f_dd : NULL;
  t.interflop_div_double = HAS(k, 7) ? f_dd : NULL;
  t.interflop_cmp_float = HAS(k, 8) ? f_cf : NULL;
  t.interflop_cmp_double = HAS(k, 9) ? f_cd : NULL;
  t.interflop_fma_float = HAS(k, 10) ? f_fmf : NULL;
  t.interflop_fma_double = HAS(k, 11) ? f_fmd : NULL;
  t.interflop_cast_double_to_float = HAS(k, 12) ? f_cast : NULL;
  return t;
}
static const char *entry_names[] = {"interflop_set_handler", "interflop_pre_init", "interflop_cli", "interflop_init"};
#ifdef VF_NATIVE
#define EACH(X) X(0) X(1) X(2) X(3) X(4) X(5) X(6) X(7) X(8) X(9) X(10) X(11) X(12) X(13) X(14) X(15) X(16)
#if NB == 17
#define EACHB(X) EACH(X)
#elif NB == 1
#define EACHB(X) X(0)
#endif
#define DEFB(k)                                                                                     \
  static void set_##k(const char *n, void *f) { b_set(k, n, f); }                                   \
  static void pre_##k(interflop_panic_t p, FILE *s, void **c) { b_pre(k, p, s, c); }                \
  static void cli_##k(int n, char **v, void *c) { b_cli(k, n, v, c); }                              \
  static struct interflop_backend_interface_t ini_##k(void *c) { return b_init(k, c); }
EACHB(DEFB)
#define ROW(k) {set_##k, pre_##k, cli_##k, ini_##k},
static void *entry[NB][4] = {EACHB(ROW)};
#else
static int c_pre, c_cli, c_ini;
static void m_set(const char *n, void *f) { b_set(opens - 1, n, f); }
static void m_pre(interflop_panic_t p, FILE *s, void **c) { b_pre(c_pre++, p, s, c); }
static void m_cli(int n, char **v, void *c) { b_cli(c_cli++, n, v, c); }
static struct interflop_backend_interface_t m_ini(void *c) { return b_init(c_ini++, c); }
static void *entry[4] = {m_set, m_pre, m_cli, m_ini};
#endif
void *vf_dlsym(void *h, const char *name) {
  int s = -1;
  for (int i = 0; i < 4; i++)
    if (strcmp(name, entry_names[i]) == 0)
      s = i;
  if (h == &dl_bad || s < 0) {
    dl_err = "none";
    return NULL;
  }
#ifdef VF_NATIVE
  int k = (int)((int *)h - handles);
#else
  int k = opens - 1;
  VF_ASSERT(h == &handles[k], "model: the entry points of a backend are looked up before the next one is loaded");
#endif
  if (k == in_badsym && s == in_whichsym) {
    dl_err = "none";
    return NULL;
  }
#ifdef VF_NATIVE
  return entry[k][s];
#else
  return entry[s];
#endif
}

static bool required(int op) {
  if (op < 8)
    return true;
#ifdef INST_FCMP
  if (op == 8 || op == 9)
    return true;
#endif
#ifdef INST_FMA
  if (op == 10 || op == 11)
    return true;
#endif
#ifdef INST_CAST
  if (op == 12)
    return true;
#endif
  return false;
}
void h_init(void) {
#if NB == 1
  in_nb = 1;
#else
  VF_RANGE(nb, 0, NB);
#endif
  bool words_ok = true;
  for (int k = 0; k < NB; k++) {
#ifdef VF_NATIVE
    char nm[24];
    snprintf(nm, sizeof nm, "in_argc[%d]", k);
    vf_range(nm, &in_argc[k], 2, 0, NA);
    if (vf_searching() && (in_nl & 7)) { /* mostly small requests */
      if (in_argc[k] > 20 || in_argc[k] == 0) in_argc[k] = 1 + in_argc[k] % 5;
      vf_record(nm, &in_argc[k], 2);
    }
    if (in_argc[k] > NA) vf_reject();
#else
    uint16_t n;
    in_argc[k] = n;
    VF_ASSUME(n <= NA);
#endif
    if (k < in_nb && (in_argc[k] == 0 || in_argc[k] > MAX_ARGS - 1))
      words_ok = false;
  }
  VF_GET(nl);
  VF_RANGE(wk, 0, NB - 1);
  VF_RANGE(wj, 0, NA);
  VF_GET(env); VF_GET(file); VF_GET(openf); VF_GET(sep); VF_GET(silent);
  VF_GET(badlib); VF_GET(badsym); VF_GET(impl);
#ifdef VF_NATIVE
  if (vf_searching()) { /* mostly requests that can be met */
    if (in_wop & 7) { in_badlib |= 128; in_badsym |= 128; }
    if (in_nb % 5) in_impl |= 1;
    vf_record("in_badlib", &in_badlib, 1); vf_record("in_badsym", &in_badsym, 1); vf_record("in_impl", &in_impl, 4);
  }
  compose(env_s);
  strcpy(env_0, env_s);
#endif
  VF_RANGE(whichsym, 0, 3);
  VF_RANGE(wop, 0, OPS - 1);
  VF_RANGE(wh, 0, NH - 1);
  bool impl_ok = false;
  for (int k = 0; k < NB; k++) {
    if (k < in_nb && HAS(k, in_wop))
      impl_ok = true;
    pre[k] = cli[k] = ini[k] = hnd[k] = hbad[k] = opened[k] = 0;
    good[k] = false;
  }
  if (!required(in_wop))
    impl_ok = true;
  opens = 0;
  order_ok = true;
  dl_err = NULL;
#ifndef VF_NATIVE
  c_pre = c_cli = c_ini = 0;
#endif
  loaded_backends = 0;
  already_initialized = 0;
  vf_infos = 0;
  for (int i = 0; i < MAX_BACKENDS; i++)
    contexts[i] = NULL;
  bool ok = readable() && in_nb >= 1 && in_nb <= MAX_BACKENDS && words_ok && in_badlib >= in_nb &&
            in_badsym >= in_nb && impl_ok;
  vf_error_ok = !ok;
  vfc_init();
  POST(ok, "a request that cannot be met is refused: no list, no backend, too many backends or arguments, a library "
           "or an entry point missing, an operation that nobody implements");
  POST(loaded_backends == in_nb && opens == in_nb && order_ok, "as many backends as asked for, in that order");
  if (in_wk < in_nb) {
    int k = in_wk;
    POST(good[k] && pre[k] == 1 && cli[k] == 1 && ini[k] == 1,
         "each backend is loaded, allocated, given its arguments and started, once and in that order");
    POST(contexts[k] == &ctxs[k], "it keeps the context it made");
    POST((backends[k].interflop_add_float != NULL) == HAS(k, 0) && (backends[k].interflop_sub_float != NULL) == HAS(k, 1) &&
         (backends[k].interflop_mul_float != NULL) == HAS(k, 2) && (backends[k].interflop_div_float != NULL) == HAS(k, 3) &&
         (backends[k].interflop_add_double != NULL) == HAS(k, 4) && (backends[k].interflop_cmp_double != NULL) == HAS(k, 9) &&
         (backends[k].interflop_fma_double != NULL) == HAS(k, 11) &&
         (backends[k].interflop_cast_double_to_float != NULL) == HAS(k, 12),
         "and is called through the table it returned");
  }
  POST(vf_infos == (in_silent < 3 ? 0 : in_nb), "loading is reported unless silenced");
#ifdef VF_NATIVE
  POST(!in_env || strcmp(env_s, env_0) == 0, "the environment is left as it was");
#else
  POST(from_env() || newline_cut, "the newline that ends the list is not part of it");
#endif
  vfc_init();
  POST(loaded_backends == in_nb && opens == in_nb, "a second initialisation does nothing");
  VF_REACH();
}
