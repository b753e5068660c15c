/* Bounded runs of the real ntt_red_interval.c against the real ntt_red.c.  main(seed, thorough)
   r32_*: ntt_red.c as it is; r64_*: ntt_red.c with 64-bit coefficients, which cannot overflow here. */
#include <stdio.h>
#include <stdlib.h>
#include <stdarg.h>
#include <string.h>
#include <strings.h>
#include <stdint.h>
#include <inttypes.h>
#include <signal.h>
#include <setjmp.h>
#include <unistd.h>
#include "ntt_red_interval.h"
static uint64_t rs;
static uint64_t rnd(void) { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs; }
static long runs;
static jmp_buf jb;
static int reported;
#define MAXN 2048
static const char *fn = "?"; static int n; static int64_t lo[MAXN], hi[MAXN]; static int16_t p[MAXN]; static int64_t pl[MAXN], ph[MAXN]; static int64_t x64[MAXN], y64[MAXN], s64[MAXN], t64[MAXN], kk; static int32_t x32[MAXN], y32[MAXN], z32[MAXN];
static int two, haveb;
static char msg[300];
static void pa(const char *w, const int64_t *v) { printf("%s", w); for (int i = 0; i < n; i++) printf(" %" PRId64, v[i]); printf("\n"); }
static void dump(const char *why) {
  printf("FAIL %s\nfunction %s\nn %d\n", why, fn, n);
  pa("interval_min", lo); pa("interval_max", hi);
  printf("table"); for (int i = 0; i < n; i++) printf(" %d", p[i]); printf("\n");
  if (two) { pa("table_min", pl); pa("table_max", ph); }
  pa("values", s64); if (haveb) pa("second", t64);
  printf("scalar %" PRId64 "\n", kk);
  fflush(stdout); _exit(1);
}
void vk_exit(int s) { longjmp(jb, 1); }
void vk_abort(void) { longjmp(jb, 2); }
static int said(const char *f) { for (; *f; f++) if (!strncasecmp(f, "overflow", 8)) reported = 1; return 1; }
int vk_printf(const char *f, ...) { return said(f); }
int vk_fprintf(FILE *o, const char *f, ...) { return said(f); }
static void onsig(int s) { dump(s == SIGALRM ? "the call does not return" : "memory fault or abort"); }
#define D(f) extern void f##_decl_unused(void);
typedef void (*t32)(int32_t *, uint32_t, const int16_t *);
typedef void (*t64_)(int64_t *, uint32_t, const int16_t *);
typedef void (*ta)(interval_t **, uint32_t, const int16_t *);
typedef void (*tb)(interval_t **, uint32_t, const interval_t **);
#define T(f) extern void r32_##f(int32_t *, uint32_t, const int16_t *); extern void r64_##f(int64_t *, uint32_t, const int16_t *);
#define LIST(X) X(ntt_red_ct_rev2std) X(mulntt_red_ct_rev2std) X(ntt_red_ct_std2rev) X(mulntt_red_ct_std2rev) X(ntt_red_gs_rev2std) X(nttmul_red_gs_rev2std) X(ntt_red_gs_std2rev) X(nttmul_red_gs_std2rev)
LIST(T)
#define E(f) {#f, r32_##f, r64_##f, abstract_##f, abstract2_##f},
static struct { const char *name; t32 a; t64_ b; ta c; tb d; } TR[] = { LIST(E) };
#define U(f) extern void r32_##f(int32_t *, uint32_t); extern void r64_##f(int64_t *, uint32_t);
#define ULIST(X) X(normalize) X(normalize_inv3) X(shift_array) X(reduce_array) X(reduce_array_twice) X(correct)
ULIST(U)
#define V(f, g) {#f, r32_##f, r64_##f, abstract_##f},
static struct { const char *name; void (*a)(int32_t *, uint32_t); void (*b)(int64_t *, uint32_t); void (*c)(interval_t **, uint32_t); } UN[] = {
  {"normalize", r32_normalize, r64_normalize, abstract_normalize}, {"normalize_inv3", r32_normalize_inv3, r64_normalize_inv3, abstract_normalize_inv3},
  {"shift_array", r32_shift_array, r64_shift_array, abstract_shift_array}, {"reduce_array", r32_reduce_array, r64_reduce_array, abstract_reduce_array},
  {"reduce_array_twice", r32_reduce_array_twice, r64_reduce_array_twice, abstract_reduce_array_twice}, {"correct", r32_correct, r64_correct, abstract_correct}};
extern void r32_mul_reduce_array16(int32_t *, uint32_t, const int16_t *), r64_mul_reduce_array16(int64_t *, uint32_t, const int16_t *);
extern void r32_mul_reduce_array(int32_t *, uint32_t, const int32_t *, const int32_t *), r64_mul_reduce_array(int64_t *, uint32_t, const int64_t *, const int64_t *);
extern void r32_scalar_mul_reduce_array(int32_t *, uint32_t, int32_t), r64_scalar_mul_reduce_array(int64_t *, uint32_t, int64_t);
static interval_t *iv(int64_t a, int64_t b) { interval_t *r = malloc(sizeof *r); r->min = a; r->max = b; return r; }
static interval_t *A[MAXN], *B[MAXN], *C[MAXN];
static int64_t pick(int64_t a, int64_t b, int mode) {
  switch (mode % 4) { case 0: return rnd() & 1 ? a : b; case 1: return a; case 2: return b; default: return a + (int64_t) (rnd() % (uint64_t) (b - a + 1)); }
}
static int64_t clampi(int64_t v) { return v < INT32_MIN ? INT32_MIN : v > INT32_MAX ? INT32_MAX : v; }
static void ranges(int cls) {
  static const int64_t M[] = {0, 1, 100, 6144, 12288, 21499, 1 << 20, 1 << 26, 1 << 28, 1 << 29, 1 << 30, INT32_MAX};
  int64_t m = M[rnd() % 12];
  for (int i = 0; i < n; i++) {
    if (cls == 0) { lo[i] = -m; hi[i] = m; }
    else if (cls == 1) { lo[i] = 0; hi[i] = m; }
    else { int64_t c = (int64_t) (int32_t) rnd() % (M[rnd() % 12] + 1), w = M[rnd() % 12] % 100000; lo[i] = clampi(c - w); hi[i] = clampi(c + (rnd() & 1 ? w : 0)); if (rnd() % 4 == 0) hi[i] = lo[i]; }
    if (lo[i] < INT32_MIN) lo[i] = INT32_MIN;
  }
}
static void table(int cls) {
  for (int i = 0; i < n; i++) {
    p[i] = cls == 0 ? (int16_t) rnd() : (int16_t) ((int) (rnd() % 12289) - 6144);
    int w = rnd() % 3; pl[i] = p[i] > 32760 ? p[i] - w : p[i]; ph[i] = p[i] > 32760 ? p[i] : p[i] + w;
  }
}
static void compare(const char *name, int rep) {
  int over = 0;
  for (int i = 0; i < n; i++) over |= (int64_t) x32[i] != x64[i];
  if (over) { if (!rep) dump("the real routine overflows 32 bits and the analysis does not report it"); return; }
  for (int i = 0; i < n; i++) if (x64[i] < A[i]->min || x64[i] > A[i]->max) {
    snprintf(msg, sizeof msg, "a[%d] = %" PRId64 " is outside the computed interval [%" PRId64 ",%" PRId64 "]", i, x64[i], A[i]->min, A[i]->max); dump(msg);
  }
}
static void sample(int k, int mode) {
  for (int i = 0; i < n; i++) {
    int64_t v = pick(lo[i], hi[i], mode < 4 ? mode : (int) (rnd() % 4));
    if (mode == 4 || mode == 5) v = ((i >> (rnd() % 3)) ^ mode) & 1 ? lo[i] : hi[i];
    s64[i] = x64[i] = v; x32[i] = (int32_t) v;
  }
}
static void transform(int t, int k, int v2, int icls, int tcls, int samples) {
  n = 1 << k; two = v2; haveb = 0; fn = TR[t].name; ranges(icls); table(tcls); kk = 0; runs++;
  static char nm[64]; snprintf(nm, sizeof nm, "%s%s", v2 ? "abstract2_" : "abstract_", TR[t].name); fn = nm;
  for (int i = 0; i < n; i++) { A[i] = iv(lo[i], hi[i]); B[i] = iv(pl[i], ph[i]); s64[i] = 0; }
  reported = 0; alarm(60);
  if (setjmp(jb)) return;
  if (v2) TR[t].d(A, n, (const interval_t **) B); else TR[t].c(A, n, p);
  int rep = reported;
  for (int s = 0; s < samples; s++) {
    sample(n, s % 8);
    if (v2) for (int i = 0; i < n; i++) p[i] = (int16_t) pick(pl[i], ph[i], s);
    TR[t].a(x32, n, p); TR[t].b(x64, n, p);
    compare(TR[t].name, rep);
  }
  for (int i = 0; i < n; i++) { delete_interval(A[i]); free(B[i]); }
}
static void op(int u, int len) {
  n = len; two = 0; haveb = 0; kk = 0; runs++;
  static char nm[64]; int m = sizeof UN / sizeof *UN;
  const char *base = u < m ? UN[u].name : u == m ? "mul_reduce_array16" : u == m + 1 ? "mul_reduce_array" : "scalar_mul_reduce_array";
  snprintf(nm, sizeof nm, "abstract_%s", base); fn = nm;
  ranges((int) (rnd() % 3)); table((int) (rnd() & 1)); two = 0;
  int64_t L = INT32_MIN, H = INT32_MAX;
  if (!strcmp(base, "shift_array")) { L = 0; H = 12288; }
  if (!strcmp(base, "correct")) { L = -12289; H = 24577; }
  for (int i = 0; i < n; i++) {
    if (lo[i] < L || hi[i] > H) { lo[i] = L + (int64_t) (rnd() % (uint64_t) (H - L + 1)); hi[i] = lo[i] + (int64_t) (rnd() % (uint64_t) (H - lo[i] + 1)); if (rnd() & 1) hi[i] = lo[i] + (hi[i] - lo[i]) % 5; }
    A[i] = iv(lo[i], hi[i]); pl[i] = (int64_t) (rnd() % 12289) - 6144; ph[i] = pl[i] + (int64_t) (rnd() % 3); B[i] = iv(pl[i], ph[i]); C[i] = NULL;
  }
  kk = (int64_t) (rnd() % 24579) - 12289; reported = 0; alarm(60);
  if (setjmp(jb)) return;
  if (u < m) UN[u].c(A, n);
  else if (u == m) abstract_mul_reduce_array16(A, n, p);
  else if (u == m + 1) { abstract_mul_reduce_array(C, n, (const interval_t **) A, (const interval_t **) B); for (int i = 0; i < n; i++) { if (A[i]->min != lo[i] || A[i]->max != hi[i]) dump("an input interval was modified"); free(A[i]); A[i] = C[i]; } haveb = 1; }
  else abstract_scalar_mul_reduce_array(A, n, (int32_t) kk);
  for (int s = 0; s < 12; s++) {
    sample(n, s % 8);
    for (int i = 0; i < n; i++) { t64[i] = y64[i] = pick(pl[i], ph[i], s); y32[i] = (int32_t) y64[i]; }
    if (u < m) { UN[u].a(x32, n); UN[u].b(x64, n); }
    else if (u == m) { r32_mul_reduce_array16(x32, n, p); r64_mul_reduce_array16(x64, n, p); }
    else if (u == m + 1) { int64_t o[MAXN]; r32_mul_reduce_array(z32, n, x32, y32); r64_mul_reduce_array(o, n, x64, y64); memcpy(x64, o, sizeof o); memcpy(x32, z32, sizeof z32); }
    else { r32_scalar_mul_reduce_array(x32, n, (int32_t) kk); r64_scalar_mul_reduce_array(x64, n, kk); }
    compare(base, 1);
  }
  for (int i = 0; i < n; i++) { delete_interval(A[i]); free(B[i]); }
}
int main(int argc, char **argv) {
  int th = argc > 2 && atoi(argv[2]);
  rs = 88172645463325252ull ^ (argc > 1 ? (uint64_t) atoll(argv[1]) * 0x9e3779b97f4a7c15ull : 0);
  int sg[] = {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGALRM};
  for (int i = 0; i < 6; i++) signal(sg[i], onsig);
  for (int rep = 0; rep < (th ? 150 : 40); rep++)
    for (int k = 0; k <= 6; k++) for (int t = 0; t < 8; t++) for (int v2 = 0; v2 < 2; v2++) for (int c = 0; c < 3; c++)
      transform(t, k, v2, c, rep % 4 == 3 ? 0 : 1, k <= 3 ? 200 : 60);
  for (int rep = 0; rep < (th ? 8 : 2); rep++)
    for (int k = 7; k <= (th ? 11 : 10); k++) for (int t = 0; t < 8; t++) for (int v2 = 0; v2 < 2; v2++) transform(t, k, v2, (int) (rnd() % 3), 1, 30);
  for (int rep = 0; rep < (th ? 4000 : 400); rep++) for (int u = 0; u < 9; u++) op(u, rep < 20 ? rep % 10 : 1 + (int) (rnd() % 40));
  alarm(0);
  printf("runs %ld\n", runs);
  return 0;
}
