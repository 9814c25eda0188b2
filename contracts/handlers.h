/* Stand-ins for the libinterflop_logger entry points and the handler table that
 * the frontend installs. logger_error / panic / exit never return (that the real
 * logger_error ends in interflop_exit is C19). */
#ifndef VF_HANDLERS_H
#define VF_HANDLERS_H
#include <stdarg.h>
#include "interflop/interflop_stdlib.h"
/* whether the configuration may be refused; the harness says */
static bool vf_error_ok = true;
#ifndef VF_REAL_LOGGER
int vf_warned, vf_infos; /* calls of logger_warning, logger_info */
void logger_debug(const char *fmt, ...) {}
void logger_info(const char *fmt, ...) { vf_infos++; }
void logger_warning(const char *fmt, ...) { vf_warned++; }
void logger_error(const char *fmt, ...) {
  VF_ASSERT(vf_error_ok, "post: no error on valid settings");
  VF_STOP();
}
void logger_init(interflop_panic_t panic, File *stream, const char *name) {}
#endif
static void vf_h_panic(const char *m) {
  VF_ASSERT(vf_error_ok, "post: no panic on valid settings");
  VF_STOP();
}
static void vf_h_exit(int st) { VF_STOP(); }
static int vf_h_fprintf(File *s, const char *fmt, ...) { return 0; }
static int vf_h_vfprintf(File *s, const char *fmt, va_list ap) { return 0; }
static int vf_h_sprintf(char *s, const char *fmt, ...) {
  s[0] = 0;
  return 0;
}
static void vf_h_vwarnx(const char *fmt, va_list ap) {}
static char *vf_h_getenv(const char *n) { return 0; }
static int vf_h_gettid(void) { return 1; }
static inline void vf_handlers(void) {
  interflop_panic = vf_h_panic;
  interflop_exit = vf_h_exit;
  interflop_fprintf = vf_h_fprintf;
  interflop_vfprintf = vf_h_vfprintf;
  interflop_sprintf = vf_h_sprintf;
  interflop_vwarnx = vf_h_vwarnx;
  interflop_getenv = vf_h_getenv;
  interflop_gettid = vf_h_gettid;
}
#endif
