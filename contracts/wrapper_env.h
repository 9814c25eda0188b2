/* What main.c.in links against, by stand-ins: the logger (error never returns), the handler table. */
#include "interflop/interflop.h"
#include "interflop/interflop_stdlib.h"
static bool vf_error_ok = false; /* whether the run may be refused; the harness says */
int vf_infos;
void logger_info(const char *fmt, ...) { vf_infos++; }
void logger_warning(const char *fmt, ...) {}
void logger_error(const char *fmt, ...) {
  VF_ASSERT(vf_error_ok, "post: no error on a valid request");
  VF_STOP();
}
void logger_init(interflop_panic_t panic, File *stream, const char *name) {}
interflop_fprintf_t interflop_fprintf;
interflop_malloc_t interflop_malloc;
interflop_free_t interflop_free;
void interflop_set_handler(const char *name, void *f) {}
