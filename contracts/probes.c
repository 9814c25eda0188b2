/* vfc_probes: what a probe stores and what the dump exports.
 * Text under proof: src/common/vfc_probes.c, verbatim. The hash map is represented by its contract
 * (C15): any table content, get answers any element under the key, insert takes any free slot. */
#include "vf.h"
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#ifndef SLOTS
#define SLOTS 3
#endif
#ifndef WHICH
#define WHICH 0
#endif
#ifndef NAME
#define NAME 2 /* longest test or variable name */
#endif
#define KEYLEN (2 * NAME + 1)
/* ---- stand-ins for the system: exit, and one file ------------------------------------------- */
static bool some_freed, refuse_ok, opened, closed, open_fails, no_env;
static unsigned inserted;
static FILE *const the_file = (FILE *)&opened;
static const char the_path[] = "out.csv";
static void vf_exit(int status) {
  POST(refuse_ok, "only a forbidden or duplicate name, or a file that cannot be written, ends the program");
  POST(status != 0 && inserted == 0, "a refused probe is an error, and is not stored");
  VF_STOP();
}
static char *vf_getenv(const char *n) { return strcmp(n, "VFC_PROBES_OUTPUT") == 0 && !no_env ? (char *)the_path : NULL; }
static FILE *vf_fopen(const char *p, const char *m) {
  POST(strcmp(p, the_path) == 0 && m[0] == 'w' && !opened, "the file named by VFC_PROBES_OUTPUT is written, afresh");
  if (open_fails)
    return NULL;
  opened = true;
  return the_file;
}
static int vf_fclose(FILE *f) {
  POST(f == the_file && !closed, "closed once");
  closed = true;
  return 0;
}
static int vf_fflush(FILE *f) { return 0; }
/* lines written: a double printed with %a (exact) is a mark in the text, its bits apart */
#define LINE 24
static char expect[LINE];
static double want_dbl[2];
static unsigned pos, ndbl, nlines, nmatch, nheader;
static bool differs, headdiffers;
static const char header[] = "test,variable,value,accuracy_threshold,check_mode\n";
static void emit_head(char c) {
  if (header[pos < sizeof header - 1 ? pos : sizeof header - 1] != c)
    headdiffers = true;
  pos++;
  if (c == '\n') {
    nheader = !headdiffers && pos == sizeof header - 1;
    nlines = 1;
    pos = 0;
  }
}
static void emit(char c) {
  if (nlines == 0) {
    emit_head(c);
    return;
  }
  if (expect[pos < LINE - 1 ? pos : LINE - 1] != c)
    differs = true;
  pos++;
  if (c == '\n') {
    if (!differs && ndbl == 2)
      nmatch++;
    nlines++;
    pos = ndbl = 0;
    differs = false;
  }
}
static void emit_double(double d) {
  if (ndbl >= 2 || !vf_same64(want_dbl[ndbl], d))
    differs = true;
  ndbl++;
  emit(1);
}
static int vf_fprintf(FILE *f, const char *fmt, ...) {
  if (f != the_file)
    return 0; /* messages */
  POST(opened && !closed, "written while the file is open");
  POST(!some_freed, "written before it is freed");
  va_list ap;
  va_start(ap, fmt);
  for (const char *p = fmt; *p; p++) {
    if (*p != '%') {
      emit(*p);
      continue;
    }
    p++;
    if (*p == 'l')
      p++;
    if (*p == 's') {
      const char *s = va_arg(ap, char *);
      for (int i = 0; s[i]; i++)
        emit(s[i]);
    } else if (*p == 'a') {
      double d = va_arg(ap, double);
      emit_double(d);
    } else
      emit(2); /* a lossy format */
  }
  va_end(ap);
  return 0;
}
/* other ways to write the same characters, or to ask for memory */
static size_t vf_fwrite(const void *s, size_t a, size_t n, FILE *f) {
  if (f != the_file)
    return n;
  POST(opened && !closed && !some_freed, "written while the file is open, before it is freed");
  for (size_t i = 0; i < a * n; i++)
    emit(((const char *)s)[i]);
  return n;
}
static int vf_fputs(const char *s, FILE *f) { return (int)vf_fwrite(s, 1, strlen(s), f); }
static int vf_fputc(int c, FILE *f) {
  char b = (char)c;
  vf_fwrite(&b, 1, 1, f);
  return c;
}
static void *vf_malloc(size_t n);
#ifndef VF_NATIVE
static void *vf_calloc(size_t a, size_t n) {
  char *r = vf_malloc(a * n);
  for (size_t i = 0; i < a * n; i++)
    r[i] = 0;
  return r;
}
static char *vf_strdup(const char *s) {
  char *r = vf_malloc(strlen(s) + 1);
  strcpy(r, s);
  return r;
}
static char *vf_strndup(const char *s, size_t n) {
  size_t l = strlen(s) < n ? strlen(s) : n;
  char *r = vf_malloc(l + 1);
  for (size_t i = 0; i < l; i++)
    r[i] = s[i];
  r[l] = 0;
  return r;
}
static int vf_vsprintf(char *d, size_t max, const char *fmt, va_list ap) {
  size_t n = 0;
  for (const char *p = fmt; *p; p++)
    if (p[0] == '%' && p[1] == 's') {
      const char *s = va_arg(ap, char *);
      for (int i = 0; s[i]; i++, n++)
        if (n + 1 < max)
          d[n] = s[i];
      p++;
    } else {
      if (n + 1 < max)
        d[n] = *p;
      n++;
    }
  if (max)
    d[n < max ? n : max - 1] = 0;
  return (int)n;
}
static int vf_snprintf(char *d, size_t max, const char *fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  int r = vf_vsprintf(d, max, fmt, ap);
  va_end(ap);
  return r;
}
static int vf_sprintf(char *d, const char *fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  int r = vf_vsprintf(d, ~(size_t)0, fmt, ap);
  va_end(ap);
  return r;
}
#endif

static void *watch_key, *watch_mode;
static unsigned key_freed, mode_freed, node_frees, n_frees;
static void vf_free(void *p) {
  some_freed = true;
  POST(node_frees == 0, "a probe's strings are freed while it is there");
  n_frees++;
  key_freed += p == watch_key;
  mode_freed += p == watch_mode;
}
static void *vf_malloc(size_t n);
#define free vf_free
#ifndef VF_NATIVE
#define malloc vf_malloc
#define calloc vf_calloc
#undef strdup
#undef strndup
#define strdup vf_strdup
#define strndup vf_strndup
#define snprintf vf_snprintf
#define sprintf vf_sprintf
#endif
#define exit vf_exit
#define fwrite vf_fwrite
#define fputs vf_fputs
#undef putc
#define fputc vf_fputc
#define putc vf_fputc
#define puts(...) ((void)0)
#undef stderr
#define stderr ((FILE *)&closed)
#define getenv vf_getenv
#define fopen vf_fopen
#define fclose vf_fclose
#define fflush vf_fflush
#define fprintf vf_fprintf
#define printf(...) ((void)0)
#include "vfc_probes.c"
#undef free
#undef malloc
#undef calloc
#undef strdup
#undef strndup
#undef snprintf
#undef sprintf
#undef fwrite
#undef fputs
#undef fputc
#undef putc
#undef puts
#undef exit
#undef getenv
#undef fopen
#undef fclose
#undef fflush
#undef fprintf
#undef printf
/* malloc: memory for one probe and its two strings */
static vfc_probe_node pool_node;
static char pool_a[KEYLEN + 8], pool_b[KEYLEN + 8];
static size_t size_a, size_b;
static unsigned strings, structs;
static void *vf_malloc(size_t n) {
  if (n == sizeof(vfc_probe_node)) {
    structs++;
    return &pool_node;
  }
  POST(n <= KEYLEN + 8 && strings < 2, "two strings for each probe");
  if (strings++ == 0) {
    size_a = n;
    return pool_a;
  }
  size_b = n;
  return pool_b;
}
/* ---- the map, by its contract ---------------------------------------------------------------- */
static struct vfc_hashmap_st the_map;
static ISize_t table[2 * SLOTS];
static vfc_probe_node nodes[SLOTS];
static char keys[SLOTS][KEYLEN + 1], modes[SLOTS][9];
static void *new_value;
static ISize_t new_key;
VF_INPUT(uint8_t, pick);
VF_INPUT(uint8_t, w); /* witness */
ISize_t get_value_at(ISize_t *items, ISize_t i) {
  POST(items == table && i < SLOTS, "asks for a slot of the table");
  return items[2 * i];
}
ISize_t get_key_at(ISize_t *items, ISize_t i) {
  POST(items == table && i < SLOTS, "asks for a slot of the table");
  return items[2 * i + 1];
}
static bool slot_live(int i) { return table[2 * i] != 0 && table[2 * i] != 1; }
void *vfc_hashmap_get(vfc_hashmap_t m, ISize_t k) {
  POST(m == &the_map, "this map");
  void *r = NULL;
  for (int i = 0; i < SLOTS; i++)
    if (slot_live((in_pick + i) % SLOTS) && table[2 * ((in_pick + i) % SLOTS) + 1] == k)
      r = (void *)table[2 * ((in_pick + i) % SLOTS)];
  return r;
}
char vfc_hashmap_have(vfc_hashmap_t m, ISize_t k) { return vfc_hashmap_get(m, k) != NULL; }
void vfc_hashmap_insert(vfc_hashmap_t m, ISize_t k, void *v) {
  POST(m == &the_map, "this map");
  inserted++;
  new_key = k;
  new_value = v;
}
ISize_t vfc_hashmap_num_items(vfc_hashmap_t m) { return m->nitems; }
vfc_hashmap_t vfc_hashmap_create(void) { return &the_map; }
void vfc_hashmap_free(vfc_hashmap_t m) { node_frees++; }
void vfc_hashmap_destroy(vfc_hashmap_t m) {}
/* the key of a name: some function of its characters; different names may share a key */
static bool same(const char *a, const char *b) {
  bool r = true, end = false;
  for (int i = 0; i <= KEYLEN; i++) {
    if (!end && a[i] != b[i])
      r = false;
    if (!end && a[i] == 0)
      end = true;
  }
  return r;
}
static char the_key[KEYLEN + 1];
ISize_t vfc_hashmap_str_function(const char *s) {
#ifdef VF_NATIVE
  ISize_t h = 0;
  for (int i = 0; i < KEYLEN && s[i]; i++)
    h = h * 31 + (unsigned char)s[i];
  return h;
#else
  static ISize_t key_of_new;
  static bool known;
  for (int i = 0; i < SLOTS; i++)
    if (slot_live(i) && same(s, keys[i]))
      return table[2 * i + 1];
  POST(same(s, the_key), "the key of the whole name");
  if (!known) {
    uint8_t k;
    key_of_new = k;
    known = true;
  }
  return key_of_new;
#endif
}
/* ---- any state: up to SLOTS probes under different names --------------------------------------- */
VF_INPUT(uint8_t, c);
VF_INPUT(uint8_t, kind);
VF_INPUT(uint64_t, val);
VF_INPUT(uint64_t, thr);
VF_INPUT(uint8_t, which);
VF_INPUT(uint8_t, badkind);
static const char *const mode_name[] = {"none", "absolute", "relative"};
static void name(char *s) {
#ifdef VF_NATIVE
  static const char few[][3] = {"Aa", "BB", "C", "", "D,", "Aa", "BB", "C"};
  int r = vf_searching() ? vf_pick() % 9 : 8; /* names that share their hash are common */
#endif
  for (int i = 0; i < NAME; i++) {
    VF_GET(c);
#ifdef VF_NATIVE
    if (r < 8) {
      in_c = few[r][i < 2 ? i : 2];
      vf_record("in_c", &in_c, 1);
    }
#endif
    s[i] = (char)in_c;
  }
  s[NAME] = 0;
}
static bool comma(const char *s) {
  bool r = false;
  for (int i = 0; i < NAME && s[i]; i++)
    if (s[i] == ',')
      r = true;
  return r;
}
static void join(char *d, const char *a, const char *b) {
  int n = 0;
  for (int i = 0; i < NAME && a[i]; i++)
    d[n++] = a[i];
  d[n++] = ',';
  for (int i = 0; i < NAME && b[i]; i++)
    d[n++] = b[i];
  d[n] = 0;
}
static void state(void) {
  the_map.capacity = SLOTS;
  the_map.items = table;
  the_map.nitems = 0;
  VF_RANGE(pick, 0, SLOTS - 1);
  VF_RANGE(w, 0, SLOTS - 1);
  for (int i = 0; i < SLOTS; i++) {
    char a[NAME + 1], b[NAME + 1];
    VF_RANGE(kind, 0, 4); /* free, mark of a removed element, or a probe */
    name(a);
    name(b);
    VF_ASSUME(!comma(a) && !comma(b));
    join(keys[i], a, b);
    VF_GET(val); VF_GET(thr);
    nodes[i].key = keys[i];
    nodes[i].value = vf_f64(in_val);
    nodes[i].accuracyThreshold = vf_f64(in_thr);
    const char *m = mode_name[in_kind >= 2 ? in_kind - 2 : 0];
    strcpy(modes[i], m);
    nodes[i].mode = modes[i];
    table[2 * i] = in_kind >= 2 ? (ISize_t)&nodes[i] : 0;
#ifdef VF_NATIVE
    table[2 * i + 1] = vfc_hashmap_str_function(keys[i]);
#else
    uint8_t h;
    table[2 * i + 1] = h;
#endif
    if (in_kind >= 2)
      the_map.nitems++;
    for (int j = 0; j < i; j++)
      VF_ASSUME(!(slot_live(i) && slot_live(j)) || !same(keys[i], keys[j]));
  }
}
void h_probe(void) {
  state();
  char t[NAME + 1], v[NAME + 1], *key = the_key;
  name(t);
  name(v);
  VF_GET(val); VF_GET(thr);
  in_which = WHICH;
  double val = vf_f64(in_val), thr = vf_f64(in_thr);
  join(key, t, v);
  bool dup = false;
  for (int i = 0; i < SLOTS; i++)
    if (slot_live(i) && same(keys[i], key))
      dup = true;
  refuse_ok = dup || comma(t) || comma(v);
  inserted = 0;
  char wkey[KEYLEN + 1];
  strcpy(wkey, keys[in_w]);
  vfc_probe_node old = nodes[in_w];
  vfc_probes p = {&the_map};
  int r;
  if (in_which == 0)
    r = vfc_probe(&p, t, v, val);
  else if (in_which == 1)
    r = vfc_probe_check(&p, t, v, val, thr);
  else if (in_which == 2)
    r = vfc_probe_check_relative(&p, t, v, val, thr);
  else if (in_which == 3)
    r = vfc_probe_f(&p, t, v, &val);
  else if (in_which == 4)
    r = vfc_probe_check_f(&p, t, v, &val, &thr);
  else
    r = vfc_probe_check_relative_f(&p, t, v, &val, &thr);
  POST(!refuse_ok, "a name already used, or with a comma, is refused");
  POST(r == 0 && inserted == 1, "the probe is stored, once");
  vfc_probe_node *n = new_value;
  POST(new_key == vfc_hashmap_str_function(key) && same(n->key, key), "under its test and variable names");
  POST(vf_same64(n->value, val), "with its value");
  POST(vf_same64(n->accuracyThreshold, in_which % 3 == 0 ? 0.0 : thr), "with the threshold of the check, or none");
  POST(strcmp(n->mode, mode_name[in_which % 3]) == 0, "with the kind of check");
#ifndef VF_NATIVE
  POST(structs == 1 && strlen(n->key) < (n->key == pool_a ? size_a : size_b) && strlen(n->mode) < (n->mode == pool_a ? size_a : size_b) &&
           n->key != n->mode, "its strings fit the memory asked for them");
#endif
  POST(n != &nodes[0] && n->key != t && n->key != v, "in memory of its own");
  POST(nodes[in_w].key == old.key && same(wkey, keys[in_w]) && vf_same64(nodes[in_w].value, old.value) &&
           vf_same64(nodes[in_w].accuracyThreshold, old.accuracyThreshold) && nodes[in_w].mode == old.mode, "the other probes are as they were");
  VF_REACH();
#ifdef VF_NATIVE
  free(n->key);
  free(n->mode);
  free(n);
#endif
}
static void cat(char *d, const char *s) {
  int n = 0;
  while (n < LINE && d[n])
    n++;
  for (int i = 0; s[i]; i++)
    d[n++] = s[i];
  d[n] = 0;
}
void h_dump(void) {
  state();
  for (int i = 0; i < SLOTS; i++)
    for (int j = 0; j < KEYLEN; j++)
      VF_ASSUME(keys[i][j] != 1 && keys[i][j] != 2 && keys[i][j] != '\n');
  VF_GET(which);
  no_env = in_which & 1;
  open_fails = in_which & 2;
  opened = closed = some_freed = false;
  differs = headdiffers = false;
  pos = ndbl = nlines = nmatch = nheader = key_freed = mode_freed = node_frees = n_frees = inserted = 0;
  refuse_ok = open_fails && !no_env;
  expect[0] = 0;
  cat(expect, keys[in_w]);
  cat(expect, ",\1,\1,");
  cat(expect, modes[in_w]);
  cat(expect, "\n");
  want_dbl[0] = nodes[in_w].value;
  want_dbl[1] = nodes[in_w].accuracyThreshold;
  watch_key = keys[in_w];
  watch_mode = modes[in_w];
  vfc_probes p = {&the_map};
  POST(vfc_num_probes(&p) == the_map.nitems, "the number of probes is that of the map");
  int r = vfc_dump_probes(&p);
  POST(!refuse_ok, "a file that cannot be written is an error");
  POST(r == 0, "dump: succeeds");
  if (no_env)
    POST(!opened, "dump: without VFC_PROBES_OUTPUT no file is written");
  else {
    POST(opened && closed && pos == 0, "dump: the file is written and closed");
    POST(nheader == 1, "dump: the first line names the columns");
    POST(nlines == 1 + the_map.nitems, "dump: one line for each probe");
    POST(!slot_live(in_w) || nmatch == 1, "dump: each probe is exported once, with its names, value, threshold and kind of check");
  }
  POST(key_freed == slot_live(in_w) && mode_freed == slot_live(in_w) && n_frees == 2 * the_map.nitems && node_frees == 1, "dump: everything is freed, once");
  VF_REACH();
}
void h_init(void) {
  vfc_probes a = vfc_init_probes(), b = {NULL};
  vfc_init_probes_f(&b);
  POST(a.map == &the_map && b.map == &the_map, "init: an empty map");
  POST(vfc_dump_probes(NULL) != 0, "no probes: reported");
  VF_REACH();
}
