/* Bounded runs of the real red_bounds.c against direct enumeration.  main(seed, thorough) */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <inttypes.h>
#include <signal.h>
#include <unistd.h>
#include "red_bounds.h"
#include "ntt_red.h"
typedef __int128 i128;
static uint64_t rs;
static uint64_t rnd(void) { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs; }
static long runs;
static const char *fn = "?"; static int64_t ar[6]; static int na;
static void dump(const char *why) {
  printf("FAIL %s\nfunction %s\narguments", why, fn);
  for (int i = 0; i < na; i++) printf(" %" PRId64, ar[i]);
  printf("\n"); fflush(stdout); _exit(1);
}
static void onsig(int s) { dump(s == SIGALRM ? "the call does not return" : s == SIGILL ? "undefined behaviour trap" : s == SIGABRT ? "assertion fails" : "memory fault"); }
static void call(const char *f, int n, int64_t a, int64_t b, int64_t c, int64_t d) { fn = f; na = n; ar[0] = a; ar[1] = b; ar[2] = c; ar[3] = d; if (runs++ % 64 == 0) alarm(100); }
static char msg[300];
static i128 red(i128 v) { i128 r = v & 4095; return 3 * r - ((v - r) / 4096); }
static void bad(const char *what, int64_t got, int64_t want) { snprintf(msg, sizeof msg, "%s: returned %" PRId64 ", true value %" PRId64, what, got, want); dump(msg); }
/* extremum of red(w*x), a <= x <= b, by enumeration of the blocks with equal quotient: no block is skipped */
static int64_t refmul(int64_t a, int64_t b, int64_t w, int mx) {
  i128 best = red((i128) w * a);
  for (int64_t x = a; x <= b; x++) { i128 r = red((i128) w * x); if (mx ? r > best : r < best) best = r; }
  return best;
}
static void mul1(int64_t a, int64_t b, int64_t w) {
  int64_t m = 0, r, t;
  call("max_red_mul", 3, a, b, w, 0); r = max_red_mul(a, b, w, &m); t = refmul(a, b, w, 1);
  if (r != t) bad("maximum", r, t);
  if (m < a || m > b || red((i128) w * m) != r) bad("not attained at the reported input", r, m);
  call("min_red_mul", 3, a, b, w, 0); r = min_red_mul(a, b, w, &m); t = refmul(a, b, w, 0);
  if (r != t) bad("minimum", r, t);
  if (m < a || m > b || red((i128) w * m) != r) bad("not attained at the reported input", r, m);
}
static void red1(int64_t a, int64_t b) {
  int64_t m = 0, r, t = 0, u = 0;
  i128 hi, lo; int k = (i128) b - a >= 20000;
  hi = lo = red(a);
  /* beyond two blocks, the extremes lie in the first and last block */
  for (i128 x = a; x <= b; x++) { if (k && x == (i128) a + 9000) x = (i128) b - 9000; i128 v = red(x); if (v > hi) hi = v; if (v < lo) lo = v; }
  t = hi; u = lo;
  call("max_red", 2, a, b, 0, 0); r = max_red(a, b, &m);
  if (r != t) bad("maximum", r, t);
  if (m < a || m > b || red(m) != r) bad("not attained at the reported input", r, m);
  call("min_red", 2, a, b, 0, 0); r = min_red(a, b, &m);
  if (r != u) bad("minimum", r, u);
  if (m < a || m > b || red(m) != r) bad("not attained at the reported input", r, m);
}
static void ival(int64_t a, int64_t b, int64_t lo, int64_t hi) {
  int64_t m = 0, w = 0, r, mx = 0, mn = 0; int first = 1;
  for (int64_t u = lo; u <= hi; u++) { int64_t p = refmul(a, b, u, 1), q = refmul(a, b, u, 0); if (first || p > mx) mx = p; if (first || q < mn) mn = q; first = 0; }
  call("max_red_mul_interval", 4, a, b, lo, hi); r = max_red_mul_interval(a, b, lo, hi, &m, &w);
  if (r != mx) bad("maximum", r, mx);
  if (m < a || m > b || w < lo || w > hi || red((i128) w * m) != r) bad("not attained at the reported input", r, m);
  call("min_red_mul_interval", 4, a, b, lo, hi); r = min_red_mul_interval(a, b, lo, hi, &m, &w);
  if (r != mn) bad("minimum", r, mn);
  if (m < a || m > b || w < lo || w > hi || red((i128) w * m) != r) bad("not attained at the reported input", r, m);
  if (a == -b) {
    int64_t x;
    call("ct_bound", 3, b, lo, hi, 0); r = ct_bound(b, lo, hi);
    x = b + (mx > -mn ? mx : -mn);
    if (r < x) bad("below a reachable value", r, x);
    if (b % 2 == 0) { call("gs_bound", 3, b / 2, lo, hi, 0); r = gs_bound(b / 2, lo, hi); x = mx > -mn ? mx : -mn; if (b > x) x = b; if (r < x) bad("below a reachable value", r, x); }
  }
}
static int64_t refct(int64_t b, int64_t w) { int64_t p = refmul(-b, b, w, 1), q = refmul(-b, b, w, 0); return b + (p > -q ? p : -q); }
static int64_t refgs(int64_t b, int64_t w) { int64_t p = refmul(-2*b, 2*b, w, 1), q = refmul(-2*b, 2*b, w, 0); int64_t x = p > -q ? p : -q; return x > 2*b ? x : 2*b; }
static void fixed(int64_t b, int64_t w) {
  int64_t r, t;
  call("ct_bound_fixed", 2, b, w, 0, 0); r = ct_bound_fixed(b, w); t = refct(b, w); if (r < t) bad("below a reachable value", r, t);
  call("gs_bound_fixed", 2, b, w, 0, 0); r = gs_bound_fixed(b, w); t = refgs(b, w); if (r < t) bad("below a reachable value", r, t);
}
static void stages(int64_t b0, uint32_t n, int mul) {
  int16_t *p = malloc(2 * n);
  int64_t bd[16]; uint32_t t, j; int k, lg = 0;
  while ((1u << lg) < n) lg++;
  p[0] = (int16_t) rnd();
  for (j = 1; j < n; j++) p[j] = (int) (rnd() % 12289) - 6144;
  if (rnd() & 1) p[1 + rnd() % (n - 1)] = (rnd() & 1) ? 6144 : -6144;
  if (!mul) for (t = 1; t < n; t <<= 1) p[t] = -4096;
  for (int gs = 0; gs < 2; gs++) {
    memset(bd, 0x5A, sizeof bd);
    call(gs ? "ntt_gs_bounds" : "ntt_ct_bounds", 2, b0, n, 0, 0);
    int64_t r = gs ? ntt_gs_bounds(b0, n, p, bd) : ntt_ct_bounds(b0, n, p, bd);
    if (bd[0] != b0) bad("bound[0] is not the input bound", bd[0], b0);
    if (bd[lg] != r) bad("the last bound is not returned", bd[lg], r);
    if (lg < 15 && bd[lg + 1] != 0x5A5A5A5A5A5A5A5All) bad("writes after the last bound", lg + 1, 0);
    for (k = 1; k <= lg; k++) {
      t = gs ? n >> k : 1u << (k - 1);
      for (j = 0; j < t; j++) {
        int64_t x = bd[k-1] < 4000 || (j % 37) == 0 ? (bd[k-1] < 200000 ? (gs ? refgs(bd[k-1], p[t+j]) : refct(bd[k-1], p[t+j])) : -1) : -1;
        if (x > bd[k]) { snprintf(msg, sizeof msg, "round %d, entry %d (%d): bound %" PRId64 " below the reachable %" PRId64, k, (int) j, p[t+j], bd[k], x); dump(msg); }
      }
    }
    /* the real transforms stay below the last bound */
    if (r < INT32_MAX && b0 < INT32_MAX) {
      int32_t *a = malloc(4 * n);
      void (*ct[4])(int32_t *, uint32_t, const int16_t *) = { ntt_red_ct_rev2std, ntt_red_ct_std2rev, mulntt_red_ct_rev2std, mulntt_red_ct_std2rev };
      void (*gf[4])(int32_t *, uint32_t, const int16_t *) = { ntt_red_gs_rev2std, ntt_red_gs_std2rev, nttmul_red_gs_rev2std, nttmul_red_gs_std2rev };
      for (int v = 0; v < 24; v++) for (int q = mul ? 2 : 0; q < 4; q++) {
        for (j = 0; j < n; j++) a[j] = v < 2 ? (v ? b0 : -b0) : v < 14 ? ((j >> (v % 12)) & 1 ? b0 : -b0) : (int64_t) (rnd() % (2 * b0 + 1)) - b0;
        (gs ? gf : ct)[q](a, n, p);
        runs++;
        for (j = 0; j < n; j++) if (llabs((int64_t) a[j]) > r) { snprintf(msg, sizeof msg, "a real transform (variant %d, input %d) produces %d, bound %" PRId64, q, v, a[j], r); dump(msg); }
      }
      free(a);
    }
  }
  free(p);
}
int main(int argc, char **argv) {
  int seed = atoi(argv[1]), th = atoi(argv[2]);
  int64_t a, l, w, i;
  rs = 0x9E3779B97F4A7C15ull * (seed + 1);
  int sg[] = { SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGALRM, SIGABRT };
  for (i = 0; i < 6; i++) signal(sg[i], onsig);
  for (a = -9000; a <= 9000; a += 1 + (rnd() % (th ? 3 : 37))) for (l = 0; l < 9000; l += 1 + rnd() % 997) red1(a, a + l);
  for (i = 0; i < 3000; i++) { a = (int64_t) rnd() >> (rnd() % 50 + 2); red1(a, a + (rnd() & 1 ? (int64_t) (rnd() >> (rnd() % 50 + 3)) : (int64_t) (rnd() % 9000))); }
  red1(INT64_MIN, INT64_MIN + 5000); red1(INT64_MAX - 5000, INT64_MAX); red1(INT64_MIN, INT64_MAX);
  /* every multiplier of a byte or so, short ranges everywhere */
  for (w = -130; w <= 130; w++) for (a = -70; a <= 70; a += 1 + (th ? 0 : rnd() % 3)) for (l = 0; l < 140; l += 1 + rnd() % 23) mul1(a, a + l, w);
  for (i = 0; i < (th ? 60000 : 9000); i++) {
    int s = rnd() % 8; int64_t c;
    w = (int64_t) (rnd() % 12289) - 6144;
    if (s == 1) w = ((int64_t) (rnd() % 65) - 32) << (rnd() % 16);
    if (s == 2) w = (int64_t) (rnd() % 65536) - 32768;
    if (s == 3) w = (int64_t) rnd() >> (20 + rnd() % 40);
    if (s == 4) w = ((int64_t) 1 << (rnd() % 30)) + (int64_t) (rnd() % 3) - 1;
    if (s == 5) w = -(((int64_t) 1 << (rnd() % 30)) + (int64_t) (rnd() % 3) - 1);
    c = (int64_t) rnd() >> (3 + rnd() % 58);
    l = rnd() % (rnd() & 1 ? 30 : 9000);
    if (((i128) w * c > 0 ? (i128) w * c : -(i128) w * c) > ((i128) 1 << 61)) c %= 1 << 20;
    mul1(c, c + l, w);
    if (i % 3 == 0) mul1(-l, l, w);
  }
  for (i = 0; i < (th ? 6000 : 900); i++) {
    int64_t lo = (int64_t) (rnd() % 200) - 100, hi = lo + rnd() % (rnd() % 3 ? 60 : 5), b = rnd() % 300;
    if (rnd() % 4 == 0) { lo *= 64; hi = lo + rnd() % 40; }
    if (rnd() & 1) ival(-b, b, lo, hi); else { a = (int64_t) (rnd() % 600) - 300; ival(a, a + rnd() % 200, lo, hi); }
    if (rnd() % 8 == 0) { a = ((int64_t) (rnd() % 3) - 1) * (1 << 20); ival(a, a + rnd() % 50, lo, hi); }
  }
  ival(-3, -3, 0, 0); ival(5, 9, 0, 7); ival(5, 9, -7, 0); ival(-9, -5, -7, 7); ival(0, 0, -5, 5);
  for (i = 0; i < (th ? 20000 : 3000); i++) { w = (int64_t) (rnd() % 12289) - 6144; if (rnd() % 5 == 0) w = (w / 64) * 64; fixed(rnd() % 4000, w); }
  for (w = -40; w <= 40; w++) for (a = 0; a < 40; a++) fixed(a, w * 512), fixed(a, w);
  for (i = 0; i < (th ? 60 : 12); i++) for (uint32_t n = 2; n <= (th ? 2048 : 256); n *= 2) stages(i == 0 ? 0 : i % 3 == 0 ? 12288 : (int64_t) (rnd() % 22000), n, i & 1);
  printf("runs %ld\n", runs);
  return 0;
}
