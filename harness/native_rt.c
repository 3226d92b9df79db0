/* native side of the harness interface: replays recorded values or runs on a
 * pseudo-random stream.   prog ENTRY (seed N | cex FILE) [params...]
 * exit 0 all assertions held, 10 assertion failed, 11 unexpected die/abort,
 * 12 rejected-call expectation failed, 13 values exhausted, 14 leak growth      */
#define _GNU_SOURCE
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <dlfcn.h>
#include <signal.h>
#include <unistd.h>
#include <malloc.h>
typedef uint64_t u64;
static u64 mix64(u64 x) { x ^= x >> 33; x *= 0xff51afd7ed558ccdULL; x ^= x >> 33; x *= 0xc4ceb9fe1a85ec53ULL; x ^= x >> 33; return x; }
static int cex; static u64 vals[1 << 20]; static int nb[1 << 20]; static size_t nvals, pos; static u64 prng;
static long params[64]; static int nparams; static u64 digest = 1469598103934665603ULL; static int failed;
static int expect = -1; static char printed[1 << 16][8]; static long reps = 1;
static void observe(u64 v) { digest = (digest ^ v) * 1099511628211ULL; }
static void finish(void) { fflush(stdout); printf("\nDIGEST %016llx failed=%d\n", (unsigned long long)digest, failed); fflush(stdout); _exit(failed ? 10 : 0); }
u64 sym_bits(int n, const char *name) {
  (void)name; u64 m = n >= 64 ? ~0ULL : (1ULL << n) - 1;
  if (!cex) { prng += 0x9e3779b97f4a7c15ULL; return mix64(prng) & m; }
  if (pos >= nvals) return 0; /* inputs after the failing point */
  return vals[pos++] & m;
}
long random(void) { return (long)sym_bits(31, "random"); }
int rand(void) { return (int)sym_bits(31, "rand"); }
u64 m4ri_random_word(void) { return sym_bits(64, "random_word"); }
void sym_assume(u64 c) { if (!c) { printf("ASSUMPTION not met\n"); finish(); } }
void sym_assert(u64 c, const char *msg) { observe(c != 0); if (!c) { failed = 1; printf("FAIL %s\n", msg); } }
void sym_assert_eq(u64 a, u64 b, const char *msg, int i, int j) { observe(a); if (a != b) { if (failed++ < 20) printf("FAIL %s (%d,%d): got %llx want %llx\n", msg, i, j, (unsigned long long)a, (unsigned long long)b); } }
long sym_param(int i) { return i < nparams ? params[i] : 0; }
void sym_observe(u64 v) { observe(v); }
void sym_expect_die(u64 c) { expect = c != 0; }
extern u64 on_die(void) __attribute__((weak));
static void died(const char *m) {
  if (expect >= 0) { if (!expect) { printf("FAIL valid arguments rejected: %s\n", m); failed = 1; } else printf("rejected as expected: %s\n", m);
    int e = expect; expect = -1; (void)e; if (on_die) on_die(); finish(); }
  printf("FAIL unexpected abort: %s\n", m); fflush(stdout); _exit(11);
}
void m4ri_die(const char *fmt, ...) { char b[512]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap); died(b); abort(); }
static void on_abrt(int s) { (void)s; printf("FAIL abort (assertion)\n"); fflush(stdout); _exit(11); }
static void on_segv(int s) { printf("FAIL signal %d\n", s); fflush(stdout); _exit(99); }
u64 sym_live_heap(void) { struct mallinfo2 m = mallinfo2(); (void)m; return 0; }
u64 sym_heap_bytes(void) { struct mallinfo2 m = mallinfo2(); return m.uordblks + m.hblkhd; }
u64 sym_concrete(u64 v) { return v; }
u64 sym_cond_fork(u64 c) { return c != 0; }
u64 sym_ite(u64 c, u64 a, u64 b) { return c ? a : b; }
u64 sym_gfmul(u64 a, u64 b, u64 mp, int e) { u64 r = 0; for (int i = 0; i < e; i++) if (b >> i & 1) r ^= a << i; for (int i = 2 * e - 2; i >= e; i--) if (r >> i & 1) r ^= mp << (i - e); return r; }
u64 sym_feasible(u64 c) { (void)c; return 1; }
static char *outbuf; static long outlen; static int savefd = -1; static FILE *outf;
void sym_out_begin(void) { fflush(stdout); outf = tmpfile(); savefd = dup(1); dup2(fileno(outf), 1); }
static void outend(void) { if (savefd < 0) return; fflush(stdout); dup2(savefd, 1); close(savefd); savefd = -1; outlen = lseek(fileno(outf), 0, SEEK_END); outbuf = malloc(outlen + 1); if (pread(fileno(outf), outbuf, outlen, 0) < 0) outlen = 0; fclose(outf); }
u64 sym_out_len(void) { outend(); return outlen; }
u64 sym_out(u64 i) { outend(); return (long)i < outlen ? (unsigned char)outbuf[i] : 0; }
void sym_note(const char *s) { printf("note %s\n", s); }
int sym_is_engine(void) { return 0; }
int sym_go_random(void) { if (!cex) return 0; cex = 0; prng = 1; return 1; } /* replaying: from here on pseudo-random values */
int sym_reps(void) { return (int)reps; }
int main(int argc, char **argv) {
  signal(SIGABRT, on_abrt);
#ifndef ASAN
  signal(SIGSEGV, on_segv); signal(SIGBUS, on_segv); signal(SIGFPE, on_segv);
#endif
  if (argc < 4) return 2;
  if (!strcmp(argv[2], "cex")) {
    cex = 1; FILE *f = fopen(argv[3], "r"); char line[512]; if (!f) return 2;
    while (fgets(line, sizeof line, f)) { if (line[0] == '#') continue; unsigned long long v; int n; if (sscanf(line, "%llx %d", &v, &n) == 2 && nvals < (1 << 20)) { vals[nvals] = v; nb[nvals++] = n; } }
    fclose(f);
  } else prng = strtoull(argv[3], 0, 10);
  for (int i = 4; i < argc; i++) params[nparams++] = atol(argv[i]);
  void (*fn)(void) = (void (*)(void))dlsym(RTLD_DEFAULT, argv[1]);
  if (!fn) { fprintf(stderr, "no entry %s\n", argv[1]); return 2; }
  if (getenv("SYM_LEAK")) { /* the same call sequence many times: memory in use must not keep growing */
    size_t p0 = pos; u64 pr = prng; long n = atol(getenv("SYM_LEAK")); u64 a = 0, b = 0;
    for (long i = 0; i < 3 * n; i++) { pos = p0; prng = pr; fn(); u64 h = sym_heap_bytes(); if (i == n - 1) a = h; if (i == 3 * n - 1) b = h; }
    printf("heap after %ld runs %llu, after %ld runs %llu\n", n, (unsigned long long)a, 3 * n, (unsigned long long)b);
    if (b > a && b - a >= (u64)n) { printf("FAIL memory in use grows with every call\n"); fflush(stdout); _exit(14); }
    fflush(stdout); _exit(0);
  }
  fn();
  if (expect > 0) { printf("FAIL call returned although the arguments must be rejected\n"); failed = 1; }
  finish(); return 0;
}
