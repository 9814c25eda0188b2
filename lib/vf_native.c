/* Native driver: replays a verifier counterexample against the real code, or
 * looks for a failing input (seeded, corner-biased) when the verifier gave
 * none. argv: replay FILE | search N SEED SECONDS OUTFILE */
#include <unistd.h>
#include <setjmp.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>

extern void VF_HARNESS(void);
static jmp_buf jb;
static int searching, crashlog;
static const char *crashfile;
static void dump(void);
static uint64_t s;
static struct { char name[64]; unsigned char v[64]; size_t n; } tab[512];
static int ntab;
static uint64_t rnd(void) {
  s += 0x9e3779b97f4a7c15ULL;
  uint64_t z = s;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
  return z ^ (z >> 31);
}
static void gen(unsigned char *p, size_t n) {
  static uint64_t last;
  uint64_t r = rnd(), v;
  if (n == 8) {
    static const uint64_t base[] = {0, 1, 2, 0x3ff0000000000000ULL, 0x7ff0000000000000ULL,
      0x000fffffffffffffULL, 0x0010000000000000ULL, 0x7fefffffffffffffULL, 0x7ff8000000000000ULL,
      0x3fe0000000000000ULL, 0x36a0000000000000ULL, 0x3810000000000000ULL, 0x47efffffe0000000ULL,
      0x4000000000000000ULL, 0x7fffffffffffffffULL};
    switch (r % 8) {
    case 0: v = base[rnd() % (sizeof base / sizeof *base)] ^ (rnd() & 1 ? 0x8000000000000000ULL : 0); break;
    case 1: v = base[rnd() % (sizeof base / sizeof *base)] + (rnd() % 7) - 3; break;
    case 2: v = (rnd() & 0x800fffffffffffffULL) | ((1023 + rnd() % 41 - 20) << 52); break;
    case 3: v = rnd() & (~0ULL << (rnd() % 53)); break;
    case 4: v = (rnd() & 0x800fffffffffffffULL & (~0ULL << (rnd() % 53))) | ((1023 + rnd() % 301 - 150) << 52); break;
    case 5: v = last ^ (1ULL << (rnd() % 64)); break;
    case 6: v = rnd() % 70; break;
    default: v = rnd();
    }
    last = v;
    memcpy(p, &v, 8);
  } else if (n == 4) {
    uint32_t w;
    static const uint32_t base[] = {0, 1, 2, 0x3f800000, 0x7f800000, 0x007fffff, 0x00800000, 0x7f7fffff,
      0x7fc00000, 0x3f000000, 0x40000000, 0x7fffffff, 0xffffffff, 0x80000000};
    switch (r % 8) {
    case 0: w = base[rnd() % (sizeof base / sizeof *base)] ^ (rnd() & 1 ? 0x80000000u : 0); break;
    case 1: w = base[rnd() % (sizeof base / sizeof *base)] + (uint32_t)(rnd() % 7) - 3; break;
    case 2: w = ((uint32_t)rnd() & 0x807fffffu) | ((uint32_t)(127 + rnd() % 41 - 20) << 23); break;
    case 3: w = (uint32_t)rnd() & (~0u << (rnd() % 24)); break;
    case 4: w = (uint32_t)(rnd() % 64); break;
    case 5: w = (uint32_t)last ^ (1u << (rnd() % 32)); break;
    case 6: w = (uint32_t)(rnd() % 64) - 32; break;
    default: w = (uint32_t)rnd();
    }
    last = w;
    memcpy(p, &w, 4);
  } else if (n == 1) {
    p[0] = (rnd() & 3) ? (unsigned char)(rnd() & 1) : (unsigned char)rnd();
  } else
    for (size_t i = 0; i < n; i++) p[i] = (unsigned char)((rnd() & 1) ? rnd() : 0);
}
/* the k-th value asked under a name is the input name (k = 0) or name@k */
static struct { char name[64]; int k; } seq[256];
static int nseq;
static char key_[80];
static const char *key(const char *name, int step) {
  int i = 0;
  while (i < nseq && strcmp(seq[i].name, name)) i++;
  if (i == nseq && nseq < 256) { snprintf(seq[i].name, 64, "%s", name); seq[i].k = 0; nseq++; }
  int k = seq[i].k;
  if (step) seq[i].k++; else k--;
  if (k > 0) snprintf(key_, sizeof key_, "%s@%d", name, k); else snprintf(key_, sizeof key_, "%s", name);
  return key_;
}
static void keep(const char *k, void *p, size_t n) {
  if (ntab < 512 && n <= 64) { snprintf(tab[ntab].name, 64, "%s", k); memcpy(tab[ntab].v, p, n); tab[ntab].n = n; ntab++; }
}
void vf_input(const char *name, void *p, size_t n) {
  const char *k = key(name, 1);
  if (searching) {
    gen(p, n);
    keep(k, p, n);
    return;
  }
  memset(p, 0, n);
  for (int i = 0; i < ntab; i++)
    if (!strcmp(tab[i].name, k)) { memcpy(p, tab[i].v, n < tab[i].n ? n : tab[i].n); return; }
}
void vf_range(const char *name, void *p, size_t n, unsigned long long lo, unsigned long long hi) {
  if (searching) {
    unsigned long long w = hi - lo + 1, v, r = rnd();
    switch (rnd() & 3) {
    case 0: case 3: v = lo + (w ? (rnd() % 70) % w : rnd() % 70); break;
    case 1: v = (rnd() & 1) ? lo : hi; break;
    default: v = w ? lo + r % w : r;
    }
    memcpy(p, &v, n);
    keep(key(name, 1), p, n);
    return;
  }
  vf_input(name, p, n);
}
unsigned vf_pick(void) { return (unsigned)(rnd() >> 20); }
static void dump(void) {
  FILE *o = fopen(crashfile, "w");
  for (int k = 0; k < ntab; k++) {
    fprintf(o, "%s ", tab[k].name);
    for (size_t b = tab[k].n; b-- > 0;) fprintf(o, "%02x", tab[k].v[b]);
    fprintf(o, "\n");
  }
  fclose(o);
}
/* sanitizer reports and signals: log the inputs of the current execution */
static void on_death(void) { if (crashlog) { crashlog = 0; dump(); _exit(99); } }
#include <signal.h>
#include <unistd.h>
static void on_sig(int g) { on_death(); _exit(98); }
#if defined(__SANITIZE_ADDRESS__)
extern void __sanitizer_set_death_callback(void (*)(void));
#endif
static void arm(void) {
#if defined(__SANITIZE_ADDRESS__)
  __sanitizer_set_death_callback(on_death);
#endif
  signal(SIGSEGV, on_sig); signal(SIGFPE, on_sig); signal(SIGABRT, on_sig); signal(SIGILL, on_sig); signal(SIGBUS, on_sig);
}
int vf_searching(void) { return searching; }
void vf_record(const char *name, void *p, size_t n) {
  const char *k = key(name, 0);
  for (int i = 0; i < ntab; i++)
    if (!strcmp(tab[i].name, k)) { memcpy(tab[i].v, p, n); tab[i].n = n; }
}
void vf_reject(void) { longjmp(jb, 1); }
void vf_noreturn_stop(void) { longjmp(jb, 2); }
static const char *failed;
void vf_fail(const char *label) { failed = label; longjmp(jb, 3); }

int main(int argc, char **argv) {
  if (argc >= 3 && !strcmp(argv[1], "replay")) {
    FILE *f = fopen(argv[2], "r");
    char line[512], name[64], hex[300];
    while (f && fgets(line, sizeof line, f))
      if (sscanf(line, "%63s %299s", name, hex) == 2 && !strncmp(name, "in_", 3) && ntab < 512) {
        size_t n = strlen(hex) / 2; /* big-endian hex digits */
        if (n > 64) continue;
        for (size_t i = 0; i < n; i++) {
          unsigned b; sscanf(hex + 2 * i, "%2x", &b);
          tab[ntab].v[n - 1 - i] = (unsigned char)b;
        }
        tab[ntab].n = n;
        snprintf(tab[ntab].name, 64, "%s", name);
        ntab++;
      }
    switch (setjmp(jb)) {
    case 0: VF_HARNESS(); puts("REPLAY: postconditions hold"); return 0;
    case 1: puts("REPLAY: input outside precondition"); return 77;
    case 2: puts("REPLAY: program stops (error exit) on this input"); return 0;
    default: printf("REPLAY: FAILED %s\n", failed); return 1;
    }
  }
  long N = atol(argv[2]);
  s = strtoull(argv[3], 0, 10) * 0x1234567ULL + 99;
  double secs = atof(argv[4]);
  clock_t t0 = clock();
  searching = 1;
  if (!strcmp(argv[1], "crash")) { crashlog = 1; crashfile = argv[5]; arm(); }
  volatile long done = 0;
  for (volatile long i = 0; i < N; i++) {
    if ((i & 1023) == 0 && (double)(clock() - t0) / CLOCKS_PER_SEC > secs) break;
    ntab = nseq = 0;
    if (setjmp(jb) == 0) { VF_HARNESS(); done++; if (!strcmp(argv[1], "reach")) { puts("REACHED"); return 0; } }
    else if (failed) {
      crashfile = argv[5];
      dump();
      printf("SEARCH: FAILED %s\n", failed);
      return 1;
    }
  }
  printf("SEARCH: nothing found, %ld executions inside the precondition\n", done);
  return 0;
}
