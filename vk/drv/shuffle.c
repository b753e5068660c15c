/* Bounded runs of the real shuffles.  main(seed, maxlog, mem): mem = memory faults only   p_: ntt.c, q_: naive_ntt.c; tables of the tree in use. */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <signal.h>
#include <unistd.h>
#include <sys/mman.h>
extern void p_bitrev_shuffle(int32_t *, uint32_t), q_bitrev_shuffle(int32_t *, uint32_t);
extern void p_shuffle_with_table(int32_t *, const uint16_t p[][2], uint32_t), q_shuffle_with_table(int32_t *, const uint16_t p[][2], uint32_t);
static uint64_t rs; static uint64_t rnd(void) { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs; }
static const char *fn; static long n; static const char *what;
static void fail(const char *why, long i, long got, long want) {
  printf("FAIL %s\nfunction %s\nn %ld\ncontents %s\nindex %ld\nvalue %ld\nexpected %ld\n", why, fn, n, what, i, got, want); fflush(stdout); _exit(1);
}
static void onsig(int s) { fail(s == SIGALRM ? "the call does not return" : "memory fault", -1, 0, 0); }
static int32_t *guard(size_t bytes, char **base, size_t *len) {
  size_t pg = 4096, k = (bytes + pg - 1) / pg;
  char *m = mmap(NULL, (k + 2) * pg, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  mprotect(m, pg, PROT_NONE); mprotect(m + (k + 1) * pg, pg, PROT_NONE);
  *base = m; *len = (k + 2) * pg;
  return (int32_t *) (m + (k + 1) * pg - bytes);
}
static uint32_t rev(uint32_t x, int k) { uint32_t r = 0; while (k--) { r = 2 * r + (x & 1); x >>= 1; } return r; }
int main(int argc, char **argv) {
  signal(SIGSEGV, onsig); signal(SIGBUS, onsig); signal(SIGFPE, onsig); signal(SIGALRM, onsig); signal(SIGABRT, onsig);
  rs = 88172645463325252ULL + strtoull(argv[1], 0, 10); int maxk = atoi(argv[2]); int memonly = argc > 3; long runs = 0;
  for (int k = 0; k <= maxk; k++) {
    n = 1L << k;
    char *b; size_t len; int32_t *a = guard(4 * n, &b, &len);
    /* pairs */
    uint16_t (*t)[2] = malloc(n * 2 + 4); uint32_t np = 0;
    if (k <= 16) for (long i = 0; i < n; i++) if (i < (long) rev(i, k)) { t[np][0] = i; t[np][1] = rev(i, k); np++; }
    for (int f = 0; f < 8; f++) {
      if (f >= 4 && k > 16) break;
      int c = f & 1;
      what = c ? "random (seed in the command)" : "a[i] = i";
      fn = (const char *[]) {"bitrev_shuffle (ntt.c)", "bitrev_shuffle (naive_ntt.c)", "shuffle_with_table (ntt.c)", "shuffle_with_table (naive_ntt.c)"}[f / 2];
      uint64_t s0 = rs;
      for (long i = 0; i < n; i++) a[i] = c ? (int32_t) rnd() : (int32_t) i;
      for (char *q = b + 4096; q < (char *) a; q++) *q = 90;
      alarm(60);
      if (f < 2) p_bitrev_shuffle(a, n); else if (f < 4) q_bitrev_shuffle(a, n);
      else if (f < 6) p_shuffle_with_table(a, (const uint16_t (*)[2]) t, np); else q_shuffle_with_table(a, (const uint16_t (*)[2]) t, np);
      alarm(0);
      for (char *q = b + 4096; q < (char *) a; q++) if (*q != 90) fail("memory in front of the array was overwritten", -1, 0, 0);
      if (memonly) { runs++; continue; }
      if (!c) for (long i = 0; i < n; i++) if (a[i] != (int32_t) rev(i, k)) fail("wrong element after the shuffle", i, a[i], rev(i, k));
      if (c) {
        int32_t *w = malloc(4 * n); rs = s0; for (long i = 0; i < n; i++) w[i] = (int32_t) rnd();
        for (long i = 0; i < n; i++) if (a[i] != w[rev(i, k)]) fail("wrong element after the shuffle", i, a[i], w[rev(i, k)]);
        free(w);
      }
      runs++;
    }
    munmap(b, len); free(t);
  }
  printf("runs %ld\n", runs);
  return 0;
}
