/* A va_list handed to a callee that reads it is spent. CBMC passes it by value and would not see a
 * second use: note each start (or copy), and each reading. */
#ifndef VF_NATIVE
static bool vf_va_fresh;
#undef va_start
#undef va_copy
#define va_start(ap, l) (vf_va_fresh = true, __builtin_va_start(ap, l))
#define va_copy(d, s) (vf_va_fresh = true, __builtin_va_copy(d, s))
#define VA_READ()                                                                                   \
  do {                                                                                              \
    POST(vf_va_fresh, "each reader gets the arguments from the first one");                         \
    vf_va_fresh = false;                                                                            \
  } while (0)
#else
#define VA_READ()
#endif
