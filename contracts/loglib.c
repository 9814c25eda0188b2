/* The logger every backend and the runtime report through, and the table of library functions it is
 * reached by. Text under proof: src/interflop-stdlib/iostream/logger.c and interflop_stdlib.c, verbatim.
 * The library functions are stand-ins that keep the text printed on each stream. */
#include "vf.h"
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <strings.h>
#include "va_fresh.h"
#ifdef VF_NATIVE
#undef VA_READ
#define VA_READ()
#endif
#include "interflop_stdlib.c"
#include "iostream/logger.c"
#ifndef LEVEL /* message logged: 0 debug, 1 info, 2 warning, 3 error */
#define LEVEL 3
#endif
VF_INPUT(uint8_t, w_on);    /* words of the variables, or none (0) */
VF_INPUT(uint8_t, w_color);
VF_INPUT(uint8_t, w_level);
VF_INPUT(uint8_t, file);    /* log file given */
VF_INPUT(uint8_t, opens);   /* and can be opened */
VF_INPUT(uint8_t, again);   /* the logger is initialised twice */
VF_INPUT(int, tid);
VF_INPUT(int, num);
VF_INPUT(uint8_t, c);
#ifndef NAMELEN
#define NAMELEN 1
#endif
#define DIGITS 11 /* of an int, at most */
static char word[3][8], text[NAMELEN + 1];
static char *put(char *d, const char *s) {
  int i = 0;
  for (; s[i]; i++)
    d[i] = s[i];
  d[i] = 0;
  return d;
}
/* ---- what is printed: stderr (0) and the log file (1) */
#define OUT 160
static char out[2][OUT];
static int len[2], nums[2], opened, warned;
static char name[OUT];
static int err_f, log_f;
#define S_ERR ((File *)&err_f)
#define S_LOG ((File *)&log_f)
static void ch(int s, char c) {
  if (len[s] < OUT - 1)
    out[s][len[s]++] = c;
}
/* the conversions used here: %s, %c, %d */
static int put_fmt(int s, const char *f, va_list ap) {
  int i = 0;
  VA_READ();
  for (; f[i]; i++) {
    if (f[i] != '%') {
      ch(s, f[i]);
      continue;
    }
    i++;
    if (f[i] == 's') {
      const char *a = va_arg(ap, const char *);
      for (int j = 0; a[j]; j++)
        ch(s, a[j]);
    } else if (f[i] == 'c') {
      ch(s, (char)va_arg(ap, int));
    } else if (f[i] == 'd') {
      int v = va_arg(ap, int);
      POST(v == in_num || v == in_tid, "the numbers printed are those given");
      ch(s, '#');
      nums[s]++;
    } else
      POST(0, "logger: a conversion the contract does not know");
  }
  return i;
}
static int s_vfprintf(File *f, const char *fmt, va_list ap) {
  POST(f == S_ERR || (f == S_LOG && opened), "messages go to an open stream");
  put_fmt(f == S_LOG, fmt, ap);
  return 1;
}
static int s_fprintf(File *f, const char *fmt, ...) {
  va_list ap;
#ifndef VF_NATIVE
  bool was = vf_va_fresh; /* of the caller's list */
#endif
  va_start(ap, fmt);
  s_vfprintf(f, fmt, ap);
  va_end(ap);
#ifndef VF_NATIVE
  vf_va_fresh = was;
#endif
  return 1;
}
static void s_vwarnx(const char *fmt, va_list ap) {
  warned++;
  ch(0, '!'); /* the program's name */
  put_fmt(0, fmt, ap);
  ch(0, '\n');
}
static int s_sprintf(char *d, const char *fmt, ...) {
  va_list ap;
  int n = 0;
  va_start(ap, fmt);
  for (int i = 0; fmt[i]; i++)
    if (fmt[i] == '%' && fmt[i + 1] == 's') {
      const char *a = va_arg(ap, const char *);
      for (int j = 0; a[j]; j++)
        d[n++] = a[j];
      i++;
    } else if (fmt[i] == '%' && fmt[i + 1] == 'd') {
      POST(va_arg(ap, int) == in_tid, "log file: the name ends with the thread's id");
      for (int j = 0; j < DIGITS; j++)
        d[n++] = '#';
      i++;
    } else
      d[n++] = fmt[i];
  d[n] = 0;
  va_end(ap);
  return n;
}
static char *s_getenv(const char *n) {
  if (strcmp(n, "VFC_BACKENDS_LOGGER") == 0)
    return in_w_on ? word[0] : (char *)0;
  if (strcmp(n, "VFC_BACKENDS_COLORED_LOGGER") == 0)
    return in_w_color ? word[1] : (char *)0;
  if (strcmp(n, "VFC_BACKENDS_LOGGER_LEVEL") == 0)
    return in_w_level ? word[2] : (char *)0;
  if (strcmp(n, "VFC_BACKENDS_LOGFILE") == 0)
    return in_file ? text : (char *)0;
  POST(0, "the logger reads its own variables");
  return Null;
}
static int s_strcasecmp(const char *a, const char *b) {
  for (int i = 0;; i++) {
    int x = a[i] >= 'A' && a[i] <= 'Z' ? a[i] + 32 : a[i], y = b[i] >= 'A' && b[i] <= 'Z' ? b[i] + 32 : b[i];
    if (x != y)
      return x - y;
    if (x == 0)
      return 0;
  }
}
static int s_strcmp(const char *a, const char *b) { return strcmp(a, b); }
static File *s_fopen(const char *p, const char *m, int *e) {
  POST(opened == 0, "log file: opened once");
  bool same = in_file;
  for (int i = 0; i < NAMELEN; i++)
    same = same && p[i] == text[i];
  same = same && p[NAMELEN] == '.';
  for (int i = 0; i < DIGITS; i++)
    same = same && p[NAMELEN + 1 + i] == '#';
  POST(same && p[NAMELEN + 1 + DIGITS] == 0, "log file: the name given, then the thread's id");
  POST(m[0] == 'a' && m[1] == 0, "log file: what it holds is kept");
  if (!in_opens)
    return Null;
  opened = 1;
  return S_LOG;
}
static char *s_strerror(int e) { return "e"; }
static int s_gettid(void) { return in_tid; }
static void s_panic(const char *m) {
  POST(0, "no panic: every function was handed over");
  VF_STOP();
}
static bool must_exit, ready;
static void spec(void);
static void s_exit(int st) {
  POST(st == 1, "an error ends the program with a failure status");
  POST(must_exit, "only an error ends the program");
  if (ready)
    spec();
#if LEVEL == 3 || NAMELEN > 255
  VF_REACH();
#endif
  VF_STOP();
}
static void expect(char *e, int *n, const char *s) {
  for (int i = 0; s[i]; i++)
    e[(*n)++] = s[i];
}
static const char *on_w[] = {"", "True", "tRUE", "False", "no", ""};
static const char *lv_w[] = {"", "debug", "info", "Warning", "ERROR", "xyz"};
static bool on(int w) { return w == 1 || w == 2; }
static int lvl(void) { return in_w_level == 0 || in_w_level == 5 ? 1 : in_w_level - 1; }
/* what must have been printed */
static void spec(void) {
  static const char *hd[] = {"Debug", "Info", "Warning", "Error"};
  static const char *col[] = {"\x1b[1;38;5;250m", "\x1b[1;34m", "\x1b[1;33m", "\x1b[1;31m"};
  char e[OUT];
  int n = 0, s = LEVEL < 2 && in_file ? 1 : 0;
  bool shown = (in_w_on == 0 || on(in_w_on)) && lvl() <= LEVEL;
  if (shown) {
    if (on(in_w_color))
      expect(e, &n, col[LEVEL]);
    expect(e, &n, hd[LEVEL]);
    if (on(in_w_color))
      expect(e, &n, "\x1b[0m");
    expect(e, &n, " [");
    if (on(in_w_color))
      expect(e, &n, "\x1b[32m");
    expect(e, &n, "be");
    if (on(in_w_color))
      expect(e, &n, "\x1b[0m");
    expect(e, &n, "]: ");
  }
  if (shown || LEVEL >= 2) {
    if (LEVEL >= 2)
      expect(e, &n, "!");
    expect(e, &n, "a ");
    e[n++] = in_c;
    expect(e, &n, " #");
    if (LEVEL >= 2)
      expect(e, &n, "\n");
  }
  POST(len[s] == n, "message: printed whole, exactly when the logger's variables say");
  for (int i = 0; i < n; i++)
    if (i < len[s])
      POST(out[s][i] == e[i], "message: its header, then the text with its arguments");
  POST(len[!s] == 0, "message: printed on the stream the variables name, and no other");
}
static void setup(void) {
  VF_RANGE(w_on, 0, 5);
  VF_RANGE(w_color, 0, 5);
  VF_RANGE(w_level, 0, 5);
  VF_RANGE(file, 0, 1);
  VF_RANGE(opens, 0, 1);
  VF_RANGE(again, 0, 1);
  VF_RANGE(c, 33, 126);
  VF_GET(tid);
  VF_GET(num);
#if NAMELEN > 1
  in_w_on = in_w_color = in_w_level = in_again = 0; /* the rest: other jobs */
  in_file = in_opens = 1;
#endif
  for (int i = 1; i <= 5; i++) {
    if (in_w_on == i)
      put(word[0], on_w[i]);
    if (in_w_color == i)
      put(word[1], on_w[i]);
    if (in_w_level == i)
      put(word[2], lv_w[i]);
  }
  for (int i = 0; i < NAMELEN; i++)
    text[i] = 'L';
  interflop_set_handler("exit", (void *)s_exit);
  interflop_set_handler("fopen", (void *)s_fopen);
  interflop_set_handler("fprintf", (void *)s_fprintf);
  interflop_set_handler("getenv", (void *)s_getenv);
  interflop_set_handler("gettid", (void *)s_gettid);
  interflop_set_handler("sprintf", (void *)s_sprintf);
  interflop_set_handler("strcasecmp", (void *)s_strcasecmp);
  interflop_set_handler("strcmp", (void *)s_strcmp);
  interflop_set_handler("strerror", (void *)s_strerror);
  interflop_set_handler("vfprintf", (void *)s_vfprintf);
  interflop_set_handler("vwarnx", (void *)s_vwarnx);
}
static const char *const be = "be";
static void vlog_(const char *fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  (LEVEL == 0 ? vlogger_debug : LEVEL == 1 ? vlogger_info : LEVEL == 2 ? vlogger_warning : vlogger_error)(fmt, ap);
  va_end(ap);
}
void h_log(void) {
  char arg[2] = {0, 0};
  setup();
  must_exit = in_file && (!in_opens || NAMELEN > 255); /* a name too long for a file may be refused */
  logger_init(s_panic, S_ERR, be);
  POST(!in_file || in_opens, "a log file that cannot be opened is an error");
  POST(len[0] == 0 && len[1] == 0, "starting the logger prints nothing");
  if (in_again)
    logger_init(s_panic, S_ERR, be);
  arg[0] = in_c;
  must_exit = LEVEL == 3;
  ready = true;
#ifdef VF_V
  vlog_("a %s %d", arg, in_num);
#else
  (LEVEL == 0 ? logger_debug : LEVEL == 1 ? logger_info : LEVEL == 2 ? logger_warning : logger_error)("a %s %d", arg, in_num);
#endif
  POST(LEVEL < 3, "an error never returns to the program");
  spec();
#if LEVEL < 3
  VF_REACH();
#endif
}
/* the table of functions: setting one sets that one and no other */
#define TABLE(X)                                                                                    \
  X(malloc) X(fopen) X(panic) X(strcmp) X(strcasecmp) X(strtol) X(strtod) X(getenv) X(fprintf) X(strcpy) X(strncpy) X(fclose) X(gettid) X(strerror) \
  X(sprintf) X(vwarnx) X(vfprintf) X(exit) X(strtok_r) X(fgets) X(free) X(calloc) X(argp_parse) X(nanHandler) X(infHandler) X(maxHandler) \
  X(cancellationHandler) X(denormalHandler) X(debug_print_op) X(gettimeofday) X(register_printf_specifier)
VF_INPUT(uint8_t, which);
static char cells[64];
void h_table(void) {
  static const char *names[] = {
#define X(n) #n,
      TABLE(X)
#undef X
      "unknown", "mallo", "malloc_", ""};
  enum { N = 31 };
  int k = 0;
  char own[40];
  VF_RANGE(which, 0, N + 3);
#define X(n) interflop_##n = (interflop_##n##_t)(void *)&cells[k++];
  TABLE(X)
#undef X
  put(own, names[in_which]); /* another copy of the name */
  interflop_set_handler(own, &cells[40]);
  k = 0;
#define X(n)                                                                                        \
  POST((void *)interflop_##n == (in_which == k ? &cells[40] : &cells[k]), "handlers: a function is installed under its name, the others stay"); \
  k++;
  TABLE(X)
#undef X
  VF_REACH();
}
/* powers of two */
VF_INPUT(int, e);
void h_pow2(void) {
  VF_GET(e);
  VF_ASSUME(in_e < (1 << 30) && in_e > -(1 << 30));
  float f = fpow2i(in_e);
  double d = pow2i(in_e);
  uint32_t uf = vf_u32(f);
  uint64_t ud = vf_u64(d);
  POST(uf == (in_e > 127 ? 0x7f800000u : in_e >= -126 ? (uint32_t)(in_e + 127) << 23 : in_e >= -149 ? 1u << (in_e + 149) : 0u), "fpow2i: 2^i, 0 below the smallest number, infinite above the largest");
  POST(ud == (in_e > 1023 ? 0x7ff0000000000000ull : in_e >= -1022 ? (uint64_t)(in_e + 1023) << 52 : in_e >= -1074 ? 1ull << (in_e + 1074) : 0ull), "pow2i: 2^i, 0 below the smallest number, infinite above the largest");
  VF_REACH();
}
