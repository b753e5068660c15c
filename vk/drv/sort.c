/* Bounded runs of the real sort(): arrays against inaccessible pages.  main(seed, thorough): prints a failing input and exits 1. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <inttypes.h>
#include <signal.h>
#include <unistd.h>
#include <sys/mman.h>
#include "sort.h"
#define PG 4096
#define MAXN (1u << 20)
static uint64_t *in, *ref, *cur; static uint32_t cur_n; static int cur_tail;
static char *base; static size_t cap;
static uint64_t rs;
static uint64_t rnd(void) { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs; }
static long runs;
static int cmp(const void *a, const void *b) { uint64_t x = *(uint64_t *) a, y = *(uint64_t *) b; return x < y ? -1 : x > y; }
static void dump(const char *why) {
  uint32_t m = cur_n < 4096 ? cur_n : 64;
  printf("FAIL %s\nn %" PRIu32 "\nvalues", why, cur_n);
  for (uint32_t i = 0; i < m; i++) printf(" %" PRIu64, in[i]);
  printf("\n");
  fflush(stdout);
  _exit(1);
}
static void onsig(int s) { dump(s == SIGALRM ? "the call does not return" : s == SIGILL ? "undefined behaviour trap" : "access outside the array"); }
static void run(uint32_t n) {
  size_t nb = (size_t) n * 8, pages = (nb + PG - 1) / PG;
  cur_n = n; runs++;
  if (pages == 0) pages = 1;
  // tail layout: array ends at the protected page; head layout: array starts right after one
  for (cur_tail = 0; cur_tail < 2; cur_tail++) {
    char *p = cur_tail ? base + cap - nb : base;
    cur = (uint64_t *) p;
    memset(cur_tail ? p - (nb % PG ? 64 : 0) : p + nb, 0xA5, (cur_tail ? (nb % PG ? 64 : 0) : 64));
    memcpy(cur, in, nb);
    sort(cur, n);
    for (uint32_t i = 1; i < n; i++) if (cur[i-1] > cur[i]) dump("the result is not in order");
    memcpy(ref, in, nb);
    qsort(ref, n, 8, cmp);
    if (memcmp(ref, cur, nb)) dump("the result is not a permutation of the input");
    unsigned char *z = (unsigned char *) (cur_tail ? p - (nb % PG ? 64 : 0) : p + nb);
    for (int i = 0; i < (cur_tail ? (nb % PG ? 64 : 0) : 64); i++) if (z[i] != 0xA5) dump("memory next to the array was modified");
  }
}
static const uint64_t VALS[] = { 0, 1, 2, 3, 0x7fffffffull, 0x80000000ull, 0xffffffffull, 0x100000000ull, 0x100000001ull, 0x7fffffffffffffffull, 0x8000000000000000ull, 0xfffffffffffffffeull, 0xffffffffffffffffull };
static void patterns(uint32_t n) {
  uint32_t i, k;
  uint64_t x;
  for (i = 0; i < n; i++) in[i] = i; run(n);
  for (i = 0; i < n; i++) in[i] = n - i; run(n);
  for (i = 0; i < n; i++) in[i] = 7; run(n);
  for (i = 0; i < n; i++) in[i] = UINT64_MAX; run(n);
  for (i = 0; i < n; i++) in[i] = 0; run(n);
  if (n < 5000) {                    // quadratic for a middle pivot
    for (i = 0; i < n; i++) in[i] = i < n/2 ? i : n - i; run(n);
    for (i = 0; i < n; i++) in[i] = i < n/2 ? n - i : i; run(n);
  }
  for (i = 0; i < n; i++) in[i] = i & 1; run(n);
  if (n < 5000) for (i = 0; i < n; i++) in[i] = (i & 1) ? UINT64_MAX - i : i; run(n);
  for (i = 0; i < n; i++) in[i] = (uint64_t) i << 32; run(n);
  for (i = 0; i < n; i++) in[i] = (uint64_t) (n - i) << 40; run(n);
  for (i = 0; i < n; i++) in[i] = rnd(); run(n);
  for (i = 0; i < n; i++) in[i] = rnd() & 0xffffffff; run(n);
  for (i = 0; i < n; i++) in[i] = rnd() % 3; run(n);
  for (i = 0; i < n; i++) in[i] = rnd() % 17; run(n);
  for (i = 0; i < n; i++) in[i] = VALS[rnd() % 13]; run(n);
  for (k = 0; k < 3 && n && n < 5000; k++) {     // sorted, then one element moved
    for (i = 0; i < n; i++) in[i] = 2 * i;
    x = rnd() % n; in[x] = rnd() % (2 * n); run(n);
  }
  if (n && n < 5000) {               // extremes at the pivot and at the ends
    for (i = 0; i < n; i++) in[i] = 5 + rnd() % 5;
    in[n/2] = 0; run(n); in[n/2] = 100; run(n);
    in[0] = 0; run(n); in[0] = 100; in[n-1] = 0; run(n); in[n-1] = 100; run(n);
    for (i = 0; i < n; i++) in[i] = i; in[n/2] = n; run(n); in[n-1] = 0; run(n);
    for (i = 0; i < n; i++) in[i] = i; in[n/2] = 0; run(n); in[0] = n; run(n);
    for (i = 0; i < n; i++) in[i] = i ^ 1; run(n);
    for (i = 0; i < n; i++) in[i] = (uint64_t) (i * 2654435761u) ; run(n);
  }
}
int main(int argc, char **argv) {
  int th = argc > 2 && atoi(argv[2]);
  uint32_t n, i;
  rs = 88172645463325252ull + strtoull(argc > 1 ? argv[1] : "1", 0, 10) * 2654435761u;
  in = malloc((MAXN + 8) * 8); ref = malloc((MAXN + 8) * 8);
  cap = (size_t) MAXN * 8 + 4 * PG;
  base = mmap(0, cap + 2 * PG, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  mprotect(base, PG, PROT_NONE); mprotect(base + PG + cap, PG, PROT_NONE);
  base += PG;
  stack_t ss = { .ss_sp = malloc(1 << 16), .ss_size = 1 << 16 };
  sigaltstack(&ss, 0);
  struct sigaction sa = { .sa_handler = onsig, .sa_flags = SA_ONSTACK };
  sigaction(SIGSEGV, &sa, 0); sigaction(SIGBUS, &sa, 0); sigaction(SIGILL, &sa, 0); sigaction(SIGALRM, &sa, 0); sigaction(SIGABRT, &sa, 0);
  alarm(60);
  // all arrays with values below b, by length
  static const int B[] = { 1, 3, 3, 4, 5, 5, 6, 5, 4, 3, 3, 3, 2, 2, 2, 2, 2 };
  for (n = 0; n <= (th ? 16 : 13); n++) {
    uint64_t tot = 1;
    for (i = 0; i < n; i++) tot *= B[n];
    for (uint64_t c = 0; c < tot; c++) {
      uint64_t x = c;
      for (i = 0; i < n; i++) { in[i] = x % B[n]; x /= B[n]; }
      run(n);
      if ((c & 65535) == 0) alarm(60);
    }
  }
  for (n = 0; n < 80; n++) { alarm(60); for (i = 0; i < 40; i++) patterns(n); }
  for (n = 80; n < 300; n += 3) { alarm(60); patterns(n); }
  static const uint32_t S[] = { 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 10000, 32767, 32768, 32769, 65534, 65535, 65536, 65537, 65550, 100003, 131072, 131081, 262147, 1000003 };
  for (i = 0; i < sizeof(S) / 4; i++) { alarm(60); patterns(S[i]); }
  // the same class of 64-bit values, small arrays
  for (i = 0; i < 20000; i++) { n = 1 + rnd() % 30; for (uint32_t k = 0; k < n; k++) in[k] = VALS[rnd() % 13]; run(n); if (i % 1000 == 0) alarm(60); }
  printf("runs %ld\n", runs);
  return 0;
}
