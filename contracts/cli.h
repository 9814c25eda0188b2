/* Configuration contract shared by the backends. The unit defines, before including
 * this file, API(x) (the backend's entry point x), CTX_T, and
 *   OPTIONS      list of {"name", takes-an-argument}
 *   WORDS        list of argument words, good and bad
 *   static bool want(int opt, const char *word, CTX_T *c)
 *                the specification: applies option number opt to *c, or returns false
 *                when the argument is invalid
 *   static void defaults(CTX_T *c)    the documented defaults
 *   static bool eq(CTX_T *x, CTX_T *y) equality of the settings
 * Option parsing: `interflop_argp_parse` is the frontend's (argp), represented by what
 * argp guarantees: the parser function of the argp structure is called with the key
 * declared for the option's name. `interflop_strtol` etc. by their contract. */
#ifndef VF_CLI_H
#define VF_CLI_H
#include <argp.h>
static void *setup(void);
VF_INPUT(uint32_t, opt);
VF_INPUT(uint32_t, word);
VF_INPUT(uint64_t, num);  /* numeric value of the argument */
VF_INPUT(uint8_t, err);   /* the argument is not a number */
VF_INPUT(uint64_t, dbl);
typedef struct {
  const char *name;
  bool arg;
} vf_opt_t;
static const vf_opt_t vf_opts[] = {OPTIONS};
#define NOPTS ((int)(sizeof(vf_opts) / sizeof(vf_opts[0])))
static const char *const vf_words[] = {WORDS};
#define NWORDS ((int)(sizeof(vf_words) / sizeof(vf_words[0])))
#define VF_INT_ARG() VF_ASSUME((int64_t)in_num == (int)(int64_t)in_num)
static bool vf_streq(const char *x, const char *y) {
  int i = 0;
  while (x[i] && x[i] == y[i])
    i++;
  return x[i] == y[i];
}
static char vf_low(char c) { return c >= 'A' && c <= 'Z' ? (char)(c + 32) : c; }
static int vf_h_strcasecmp(const char *x, const char *y) {
  int i = 0;
  while (x[i] && vf_low(x[i]) == vf_low(y[i]))
    i++;
  return vf_low(x[i]) - vf_low(y[i]);
}
static int vf_h_strcmp(const char *x, const char *y) { return vf_streq(x, y) ? 0 : 1; }
static long vf_h_strtol(const char *s, char **end, int *error) {
  *end = (char *)s;
  *error = in_err != 0;
  return (long)in_num;
}
static double vf_h_strtod(const char *s, char **end, int *error) {
  *end = (char *)s;
  *error = in_err != 0;
  return vf_f64(in_dbl);
}
static CTX_T vf_blk;
static void *vf_h_malloc(size_t n) {
  VF_ASSERT(n >= sizeof(CTX_T), "post: the context fits its allocation");
  return &vf_blk;
}
static int vf_found, vf_ret;
static bool vf_takes_arg;
static void *vf_children[4];
static int vf_h_argp_parse(const struct argp *argp, int argc, char **argv, unsigned flags, int *idx, void *input) {
  struct argp_state st = {0};
  st.root_argp = argp;
  st.input = input;
  st.child_inputs = vf_children;
  char *arg = argc > 1 ? argv[1] : 0;
  vf_found = 0;
  if (in_opt == (uint32_t)NOPTS) { /* argp's own keys carry no option */
    vf_ret = argp->parser(ARGP_KEY_INIT, 0, &st);
    vf_ret = argp->parser(ARGP_KEY_NO_ARGS, 0, &st);
    vf_ret = argp->parser(ARGP_KEY_END, 0, &st);
    vf_ret = argp->parser(ARGP_KEY_SUCCESS, 0, &st);
    vf_ret = argp->parser(ARGP_KEY_FINI, 0, &st);
    vf_found = 1;
    return 0;
  }
  int key = 0;
  for (int i = 0; argp->options[i].name || argp->options[i].key; i++)
    if (argp->options[i].name && vf_streq(argp->options[i].name, vf_opts[in_opt].name)) {
      vf_found++;
      key = argp->options[i].key;
      vf_takes_arg = argp->options[i].arg != 0;
    }
  if (vf_found == 1)
    vf_ret = argp->parser(key, arg, &st);
  return 0;
}
static void vf_cli_handlers(void) {
  interflop_strtol = (interflop_strtol_t)vf_h_strtol;
  interflop_strtod = (interflop_strtod_t)vf_h_strtod;
  interflop_strcasecmp = (interflop_strcasecmp_t)vf_h_strcasecmp;
  interflop_strcmp = (interflop_strcmp_t)vf_h_strcmp;
  interflop_malloc = (interflop_malloc_t)vf_h_malloc;
  interflop_argp_parse = (interflop_argp_parse_t)vf_h_argp_parse;
  interflop_fopen = (interflop_fopen_t)vf_h_malloc; /* only tested for presence */
  interflop_fclose = (interflop_fclose_t)vf_h_malloc;
  interflop_fgets = (interflop_fgets_t)vf_h_malloc;
  interflop_free = (interflop_free_t)vf_h_malloc;
  interflop_calloc = (interflop_calloc_t)vf_h_malloc;
  interflop_strcpy = (interflop_strcpy_t)vf_h_malloc;
  interflop_strtok_r = (interflop_strtok_r_t)vf_h_malloc;
  interflop_strerror = (interflop_strerror_t)vf_h_malloc;
  interflop_gettimeofday = (interflop_gettimeofday_t)vf_h_malloc;
  interflop_strncpy = (interflop_strncpy_t)vf_h_malloc;
}
/* one option, from any state: the matching setting changes to the argument, no other
 * does; an invalid argument is an error. Any sequence of options follows by induction. */
void h_cli(void) {
  CTX_T *ctx = (CTX_T *)setup();
  vf_cli_handlers();
  VF_RANGE(opt, 0, NOPTS);
  VF_RANGE(word, 0, NWORDS - 1);
  VF_GET(num); VF_GET(dbl); VF_RANGE(err, 0, 1);
  CTX_T w = *ctx;
  const char *word = vf_words[in_word];
  bool valid = in_opt == (uint32_t)NOPTS || want(in_opt, word, &w);
  vf_error_ok = !valid;
  char *argv[2] = {(char *)"backend", (char *)word};
  API(cli)(2, argv, ctx);
  POST(vf_found == 1, "the option exists, once");
  POST(in_opt != (uint32_t)NOPTS ? vf_ret == 0 : vf_ret == ARGP_ERR_UNKNOWN, "the option is accepted");
  POST(in_opt == (uint32_t)NOPTS || vf_takes_arg == vf_opts[in_opt].arg, "the option takes an argument iff documented");
  POST(valid, "invalid arguments are refused");
  POST(eq(ctx, &w), "the option sets its parameter and no other");
  VF_REACH();
}
/* documented defaults */
void h_defaults(void) {
  setup();
  vf_cli_handlers();
  vf_error_ok = false;
  void *ctx = 0;
  API(pre_init)(vf_h_panic, 0, &ctx);
  CTX_T w;
  defaults(&w);
  POST(ctx != 0, "a context is allocated");
  POST(eq((CTX_T *)ctx, &w), "documented defaults");
  VF_REACH();
}
static void vf_user_call(void *ctx, int id, ...) {
  va_list ap;
  va_start(ap, id);
#ifdef VF_USER_CALL
  API(user_call)(ctx, (interflop_call_id)id, ap);
#endif
  va_end(ap);
}
/* the table handed to the frontend */
#ifndef VF_CMP32
#define VF_CMP32 0
#define VF_CMP64 0
#endif
void h_table(void) {
  CTX_T *ctx = (CTX_T *)setup();
  vf_cli_handlers();
  CTX_T w = *ctx;
  vf_error_ok = false;
  struct interflop_backend_interface_t t = API(init)(ctx);
  POST(eq(ctx, &w), "initialisation leaves the settings");
  POST(t.interflop_add_float == API(add_float) && t.interflop_sub_float == API(sub_float) &&
           t.interflop_mul_float == API(mul_float) && t.interflop_div_float == API(div_float) &&
           t.interflop_fma_float == API(fma_float) && t.interflop_cmp_float == VF_CMP32,
       "table: float operations");
  POST(t.interflop_add_double == API(add_double) && t.interflop_sub_double == API(sub_double) &&
           t.interflop_mul_double == API(mul_double) && t.interflop_div_double == API(div_double) &&
           t.interflop_fma_double == API(fma_double) && t.interflop_cmp_double == VF_CMP64,
       "table: double operations");
  POST(t.interflop_cast_double_to_float == API(cast_double_to_float), "table: cast");
#ifdef VF_USER_CALL
  POST(t.interflop_user_call == API(user_call), "table: user call");
#endif
#ifdef VF_TABLE
  VF_TABLE(t)
#endif
  VF_REACH();
}
#endif
