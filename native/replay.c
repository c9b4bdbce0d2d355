// Runs one harness of a natively compiled harness library on recorded inputs.
//   replay LIB ENTRY v,v,v...
// Output lines: "T <value>" trace, "R <id>" reached, "F <msg>" failed assertion, and last
// "END ok|assume|assert|expected-panic".  Exit: 0 ok, 10 assumption not met, 11 assertion
// failed, 12 panic where one was allowed; a panic elsewhere ends by SIGABRT.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <pthread.h>
#include <stdarg.h>
#include <time.h>
#include <sys/syscall.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
static uint64_t *vals;
static size_t nvals, pos, nasserts;
static int expecting;
static long live;
extern void *__libc_malloc(size_t), *__libc_calloc(size_t, size_t), *__libc_realloc(void *, size_t), *__libc_memalign(size_t, size_t);
extern void __libc_free(void *);
void *malloc(size_t n) { void *p = __libc_malloc(n); if (p) live++; return p; }
void *calloc(size_t a, size_t b) { void *p = __libc_calloc(a, b); if (p) live++; return p; }
void free(void *p) { if (p) live--; __libc_free(p); }
void *realloc(void *p, size_t n) { if (!p) live++; return __libc_realloc(p, n); }
int posix_memalign(void **r, size_t a, size_t n) { void *p = __libc_memalign(a, n); if (!p) return ENOMEM; live++; *r = p; return 0; }
void *memalign(size_t a, size_t n) { void *p = __libc_memalign(a, n); if (p) live++; return p; }
void *aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
static void out(const char *tag, const uint8_t *s, size_t n) {
  char b[600];
  if (n > 500) n = 500;
  size_t k = strlen(tag);
  memcpy(b, tag, k);
  memcpy(b + k, s, n);
  b[k + n] = '\n';
  if (write(1, b, k + n + 1)) {}
}
static void outn(const char *tag, uint64_t v) {
  char b[32];
  int i = 32;
  do { b[--i] = '0' + v % 10; v /= 10; } while (v);
  out(tag, (uint8_t *)b + i, 32 - i);
}
static void end(const char *s, int code) {
  outn("A ", nasserts);
  out("END ", (const uint8_t *)s, strlen(s));
  _exit(code);
}
uint64_t sym_bits(uint32_t w) {
  uint64_t v = pos < nvals ? vals[pos] : 0;
  pos++;
  return w >= 64 ? v : v & ((1ull << w) - 1);
}
void sym_assume(_Bool c) { if (!c) end("assume", 10); }
void sym_assert(_Bool c, const uint8_t *m, size_t n) {
  nasserts++;
  if (!c) { out("F ", m, n); end("assert", 11); }
}
void sym_reach(const uint8_t *m, size_t n) { out("R ", m, n); }
uint64_t sym_conc(uint64_t v) { return v; }
void sym_trace(uint64_t v) { outn("T ", v); }
void sym_expect_panic(_Bool b) { expecting = b; }
uint64_t sym_live_heap(void) { return (uint64_t)live; }
// Threads, one at a time, taking turns as the recorded schedule says (calls of sym_point and sym_yield are put into the
// library by symx --instrument). Same rules as in symx.
#define MAXT 16
static pthread_mutex_t mx = PTHREAD_MUTEX_INITIALIZER;
static pthread_cond_t cv = PTHREAD_COND_INITIALIZER;
static unsigned nthr, turn, npre, kpre;
static int tdone[MAXT], tjoin[MAXT];
static uint64_t preat[64], preto[64], points, ticks = 1000;
static __thread unsigned me;
struct start { void (*f)(void *); void *arg; unsigned id; };
static int runnable(unsigned t) { return !tdone[t] && (tjoin[t] < 0 || tdone[tjoin[t]]); }
static int next_thread(uint64_t skip) {
  unsigned k = 0;
  for (unsigned i = 1; i < nthr; i++) k += runnable((me + i) % nthr);
  if (!k) return -1;
  skip %= k;
  for (unsigned i = 1; i < nthr; i++)
    if (runnable((me + i) % nthr) && !skip--) return (me + i) % nthr;
  return -1;
}
static void pass(int t) {
  pthread_mutex_lock(&mx);
  turn = t;
  pthread_cond_broadcast(&cv);
  while (turn != me) pthread_cond_wait(&cv, &mx);
  pthread_mutex_unlock(&mx);
  tjoin[me] = -1;
}
void sym_point(void) {
  if (!nthr || tdone[me] || next_thread(0) < 0) return;
  points++;
  if (kpre < npre && preat[kpre] <= points) pass(next_thread(preto[kpre++]));
}
void sym_yield(void) {
  if (!nthr || tdone[me]) return;
  int t = next_thread(0);
  if (t >= 0) pass(t);
}
static void deadlock(void) {
  static const char m[] = "no thread can go on";
  out("F ", (const uint8_t *)m, sizeof m - 1);
  end("assert", 11);
}
static void *starter(void *p) {
  struct start s = *(struct start *)p;
  me = s.id;
  pthread_mutex_lock(&mx);
  while (turn != me) pthread_cond_wait(&cv, &mx);
  pthread_mutex_unlock(&mx);
  s.f(s.arg);
  tdone[me] = 1;
  int t = next_thread(0);
  if (t < 0) deadlock();
  pthread_mutex_lock(&mx);
  turn = t;
  pthread_cond_broadcast(&cv);
  pthread_mutex_unlock(&mx);
  return 0;
}
uint64_t sym_spawn(void (*f)(void *), void *arg) {
  if (!nthr) nthr = 1, tjoin[0] = -1;
  struct start *s = __libc_malloc(sizeof *s);
  s->f = f, s->arg = arg, s->id = nthr;
  tjoin[nthr] = -1;
  nthr++;
  pthread_t t;
  if (pthread_create(&t, 0, starter, s)) abort();
  return s->id;
}
void sym_join(uint64_t t) {
  if (tdone[t]) return;
  tjoin[me] = t;
  int n = next_thread(0);
  if (n < 0) deadlock();
  pass(n);
}
void sym_preempt(uint64_t at, uint64_t to) { if (npre < 64) preat[npre] = at, preto[npre++] = to; }
int sched_yield(void) { if (nthr) sym_yield(); return 0; }
int clock_gettime(clockid_t c, struct timespec *ts) {
  if (!nthr) return syscall(SYS_clock_gettime, c, ts);
  ticks++;
  ts->tv_sec = ticks / 1000, ts->tv_nsec = ticks % 1000 * 1000000;
  return 0;
}
long syscall(long nr, ...) {
  static long (*real)(long, ...);
  if (!real) real = (long (*)(long, ...))dlsym(RTLD_NEXT, "syscall");
  va_list ap;
  va_start(ap, nr);
  long a[6];
  for (int i = 0; i < 6; i++) a[i] = va_arg(ap, long);
  va_end(ap);
  if (nr == SYS_futex && nthr) { sym_yield(); return 0; }
  return real(nr, a[0], a[1], a[2], a[3], a[4], a[5]);
}
static void onabort(int s) {
  if (expecting) end("expected-panic", 12);
  signal(s, SIG_DFL);
  raise(s);
}
int main(int argc, char **argv) {
  if (argc < 4) return 2;
  size_t cap = 1;
  for (char *p = argv[3]; *p; p++) cap += *p == ',';
  vals = calloc(cap, sizeof *vals);
  for (char *p = argv[3]; *p;) {
    vals[nvals++] = strtoull(p, &p, 10);
    if (*p == ',') p++;
  }
  void *h = dlopen(argv[1], RTLD_NOW);
  if (!h) { fprintf(stderr, "%s\n", dlerror()); return 2; }
  void (*f)(void) = (void (*)(void))dlsym(h, argv[2]);
  if (!f) { fprintf(stderr, "no entry %s\n", argv[2]); return 2; }
  signal(SIGABRT, onabort);
  signal(SIGILL, onabort);
  f();
  end("ok", 0);
}
