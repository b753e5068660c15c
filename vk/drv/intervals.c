/* Bounded runs of the real intervals.c (with red_bounds.c) against direct evaluation.  main(seed, thorough)
   The sources are compiled with exit and abort renamed, so that stopping is observed here. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <inttypes.h>
#include <signal.h>
#include <setjmp.h>
#include <unistd.h>
#include "intervals.h"
typedef __int128 i128;
#define Q 12289
static uint64_t rs;
static uint64_t rnd(void) { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs; }
static long runs;
static jmp_buf jb;
static int status;
static const char *fn = "?"; static int64_t ar[6]; static int na;
static char msg[300];
static void dump(const char *why) {
  printf("FAIL %s\nfunction %s\narguments", why, fn);
  for (int i = 0; i < na; i++) printf(" %" PRId64, ar[i]);
  printf("\n"); fflush(stdout); _exit(1);
}
void vk_exit(int s) { status = 1 + (s != 0); longjmp(jb, 1); }
void vk_abort(void) { status = 3; longjmp(jb, 1); }
static void onsig(int s) { dump(s == SIGALRM ? "the call does not return" : s == SIGILL ? "undefined behaviour trap" : "memory fault or abort"); }
static i128 red1(i128 v) { i128 r = v & 4095; return 3 * r - ((v - r) / 4096); }
static i128 mod(i128 v) { i128 r = v % Q; return r < 0 ? r + Q : r; }
static int64_t sat(i128 v) { return v > INT64_MAX ? INT64_MAX : v < INT64_MIN ? INT64_MIN : (int64_t) v; }
enum { PT, IV, NEG, ADD, SUB, RED, RED2, MUL, SCALE, NORM, NORM3, SHIFT, CORR, NOPS };
static const char *names[] = {"point", "interval", "neg", "add", "sub", "red", "red_twice", "red_mul", "red_scale", "normal", "normal_inv3", "shift", "correct"};
static i128 conc(int op, i128 x, i128 y, int64_t k) {
  switch (op) {
  case PT: case IV: return x;
  case NEG: return -x;
  case ADD: return x + y;
  case SUB: return x - y;
  case RED: return red1(x);
  case RED2: return red1(red1(x));
  case MUL: return red1(x * y);
  case SCALE: return red1(x * k);
  case NORM: return mod(x);
  case NORM3: return mod(mod(x) * 8193);
  case SHIFT: return x <= 6144 ? x : x - Q;
  default: return x < 0 ? x + Q : x >= Q ? x - Q : x;
  }
}
static interval_t *volatile res;
static void one(int op, int64_t a, int64_t b, int64_t c, int64_t d, int64_t k) {
  interval_t A = {a, b}, B = {c, d};
  int two = op == ADD || op == SUB || op == MUL;
  fn = names[op]; na = 0; runs++;
  if (op == SCALE) ar[na++] = k;
  ar[na++] = a; if (op != PT) ar[na++] = b; if (two) { ar[na++] = c; ar[na++] = d; }
  if (runs % 256 == 1) alarm(100);
  status = 0; res = NULL;
  if (setjmp(jb) == 0) {
    interval_t *r = NULL;
    switch (op) {
    case PT: r = point(a); break;
    case IV: r = interval(a, b); break;
    case NEG: r = neg(&A); break;
    case ADD: r = add(&A, &B); break;
    case SUB: r = sub(&A, &B); break;
    case RED: r = red(&A); break;
    case RED2: r = red_twice(&A); break;
    case MUL: r = red_mul(&A, &B); break;
    case SCALE: r = red_scale(k, &A); break;
    case NORM: r = normal(&A); break;
    case NORM3: r = normal_inv3(&A); break;
    case SHIFT: r = shift(&A); break;
    case CORR: r = correct(&A); break;
    }
    res = r;
  }
  if (A.min != a || A.max != b || B.min != c || B.max != d) dump("an argument was modified");
  i128 lo = 0, hi = 0; int exact = 1, stop = 0;
  switch (op) {
  case PT: lo = hi = a; break;
  case IV: lo = a; hi = b; stop = a > b; break;
  case NEG: lo = -(i128) b; hi = -(i128) a; break;
  case ADD: lo = (i128) a + c; hi = (i128) b + d; break;
  case SUB: lo = (i128) a - d; hi = (i128) b - c; break;
  default: exact = 0;
  }
  if (exact && (lo < INT64_MIN || hi > INT64_MAX)) stop = 1;
  if (stop != (status != 0)) dump(stop ? "returns an interval although the exact range does not fit" : "stops although the exact range fits");
  if (status == 1) dump("stops with status 0");
  if (status) return;
  interval_t *r = res;
  if (!r) dump("returns NULL");
  if (r->min > r->max) dump("the result is empty");
  if (exact && (r->min != lo || r->max != hi)) { snprintf(msg, sizeof msg, "result [%" PRId64 ",%" PRId64 "] is not the exact range [%" PRId64 ",%" PRId64 "]", r->min, r->max, sat(lo), sat(hi)); dump(msg); }
  if (!exact) {
    /* concrete values: all of a small interval, else a sample with the ends and the neighbours of multiples */
    i128 w = (i128) b - a, v = (i128) d - c;
    int all = w <= (two ? 40 : 600);
    int m = all ? (int) w + 1 : 60;
    for (int i = 0; i < m; i++) {
      i128 x;
      if (all) x = (i128) a + i;
      else if (i < 4) x = i < 2 ? (i128) a + i : (i128) b - (i - 2);
      else { uint64_t z = ((rnd() << 1) ^ rnd()); x = (i128) a + (i128) (w == UINT64_MAX ? z : z % ((uint64_t) w + 1));
        if (i % 3 == 0) { i128 s = i & 1 ? 4096 : Q; i128 y2 = x - (((x % s) + s) % s) - (i128) (rnd() & 1); if (y2 >= a && y2 <= b) x = y2; } }
      int my = two ? (v <= 40 ? (int) v + 1 : 12) : 1;
      for (int j = 0; j < my; j++) {
        i128 y = 0;
        if (two) y = v <= 40 ? (i128) c + j : j == 0 ? c : j == 1 ? d : (i128) c + (i128) (rnd() % ((uint64_t) v + 1));
        i128 g = conc(op, x, y, k);
        if (g < r->min || g > r->max) {
          snprintf(msg, sizeof msg, "result [%" PRId64 ",%" PRId64 "] does not contain %" PRId64 ", the value for x=%" PRId64 " y=%" PRId64, r->min, r->max, sat(g), (int64_t) x, (int64_t) y);
          dump(msg);
        }
      }
    }
  }
  delete_interval(r);
}
static int64_t edge(int cls) {
  static const int64_t E[] = {0, 4096, Q, 8192, 6144, 12288, 24578, 32768, 3 * 4096, 2 * Q, 1 << 20, INT32_MAX, -(int64_t) INT32_MAX - 1, -4096, -Q, -8192, -6144, -24578};
  int64_t e = E[rnd() % (sizeof E / sizeof *E)];
  if (cls == 2) {
    switch (rnd() % 6) { case 0: e = INT64_MAX; break; case 1: e = INT64_MIN; break; case 2: e = (int64_t) 1 << 62; break; case 3: e = -((int64_t) 1 << 62); break; case 4: e = (int64_t) rnd(); }
  }
  if (rnd() % 3 == 0) e *= (cls == 2 ? 1 : (int64_t) (rnd() % 3));
  i128 x = (i128) e + (int) (rnd() % 7) - 3;
  return sat(x);
}
int main(int argc, char **argv) {
  int th = argc > 2 && atoi(argv[2]);
  rs = 88172645463325252ull ^ (argc > 1 ? (uint64_t) atoll(argv[1]) * 0x9e3779b97f4a7c15ull : 0);
  freopen("/dev/null", "w", stderr);
  int sg[] = {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGALRM};
  for (int i = 0; i < 6; i++) signal(sg[i], onsig);
  /* every sub-interval of small neighbourhoods of the special points */
  static const int64_t C[] = {0, 4096, -4096, 8192, Q, -Q, 2 * Q, -2 * Q, 6144, -6144, 12288, 24577, 24576, 40960};
  for (unsigned u = 0; u < sizeof C / sizeof *C; u++)
    for (int i = -4; i <= 4; i++) for (int j = i; j <= 4; j++) {
      int64_t a = C[u] + i, b = C[u] + j;
      for (int op = 0; op < NOPS; op++) {
        if (op == SHIFT && (a < 0 || b > 12288)) continue;
        if (op == CORR && (a < -Q || b > 2 * Q - 1)) continue;
        if (op == ADD || op == SUB || op == MUL) { for (int l = -3; l <= 3; l++) one(op, a, b, C[(u + 3) % 14] + l, C[(u + 3) % 14] + 3, 0); }
        else if (op == SCALE) { for (int k = -5; k <= 5; k++) one(op, a, b, 0, 0, k * 1229); }
        else one(op, a, b, 0, 0, 0);
      }
    }
  long N = th ? 400000 : 60000;
  for (long t = 0; t < N; t++) {
    int cls = 1 + (t & 1);
    int64_t a = edge(cls), b = edge(cls), c = edge(cls), d = edge(cls), k = edge(1), s;
    if (t % 3 == 0) { s = (int64_t) (rnd() % 20000); b = a > INT64_MAX - s ? a : a + s; }
    one(IV, a, b, 0, 0, 0); one(PT, a, a, 0, 0, 0);
    if (a > b) { s = a; a = b; b = s; }
    if (c > d) { s = c; c = d; d = s; }
    one(NEG, a, b, 0, 0, 0); one(ADD, a, b, c, d, 0); one(SUB, a, b, c, d, 0); one(ADD, a, b, a, b, 0); one(SUB, a, b, a, b, 0);
    one(RED, a, b, 0, 0, 0); one(RED2, a, b, 0, 0, 0); one(NORM, a, b, 0, 0, 0); one(NORM3, a, b, 0, 0, 0); one(NORM3, a, a, 0, 0, 0);
    if (t % 4 == 0) {
      int64_t lo = (int64_t) (rnd() % 36867) - Q, hi = lo + (int64_t) (rnd() % (uint64_t) (2 * Q - lo));
      if (lo >= -Q && hi <= 2 * Q - 1) one(CORR, lo, hi, 0, 0, 0);
      lo = (int64_t) (rnd() % Q); hi = lo + (int64_t) (rnd() % (uint64_t) (Q - lo)); one(SHIFT, lo, hi, 0, 0, 0);
      if (rnd() & 1) { lo = 6144 - (int64_t) (rnd() % 3); one(SHIFT, lo, lo + (int64_t) (rnd() % 3), 0, 0, 0); }
    }
    /* products of 32-bit ranges; one factor narrow, as the iteration is over the narrower one */
    if (t % 8 == 0) {
      a = edge(1); b = a + (int64_t) (rnd() % (rnd() & 1 ? 100 : 100000)); c = edge(1) % 40000; d = c + (int64_t) (rnd() % 12);
      if (a < INT32_MIN) a = INT32_MIN; if (b > INT32_MAX) b = INT32_MAX; if (a > b) a = b;
      one(MUL, a, b, c, d, 0); one(MUL, c, d, a, b, 0); one(SCALE, a, b, 0, 0, k % 32768);
      one(SCALE, INT32_MIN, INT32_MAX, 0, 0, (int64_t) (int16_t) rnd());
    }
  }
  alarm(0);
  printf("runs %ld\n", runs);
  return 0;
}
