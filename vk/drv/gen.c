/* Runs of a real table generator in one process: its main is gen_main, its files are memory streams.
   main(kind, lo, hi, plo, phi, stride, offset)   kind: plain, red, bitrev
   bitrev: sizes lo..hi.   plain, red: sizes lo..hi with roots plo..phi; contents are checked for one accepted pair in stride. */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <setjmp.h>
#include <signal.h>
#include <unistd.h>
#include <ctype.h>
#define Q 12289
extern int gen_main(int, char **);
static jmp_buf jb;
static struct { char name[200]; char *buf; size_t len; FILE *f; } F[8];
static int nf, extra;
static long cn, cp, runs, odd;
static int two;
static void fail(const char *why) {
  printf("FAIL %s\narguments %ld", why, cn);
  if (two) printf(" %ld", cp);
  printf("\n"); fflush(stdout); _exit(1);
}
void vk_exit(int s) { longjmp(jb, 1000 + (s & 255)); }
void vk_abort(void) { longjmp(jb, 2000); }
void __assert_fail(const char *e, const char *f, unsigned l, const char *g) { longjmp(jb, 2000); }
FILE *vk_fopen(const char *n, const char *m) {
  if (nf >= 8 || strlen(n) > 199) { extra = 1; return NULL; }
  strcpy(F[nf].name, n); F[nf].f = open_memstream(&F[nf].buf, &F[nf].len); nf++;
  return F[nf - 1].f;
}
int vk_fclose(FILE *f) {
  for (int i = 0; i < nf; i++) if (F[i].f == f) { F[i].f = NULL; return fclose(f); }
  return 0;
}
static void onsig(int s) { fail(s == SIGALRM ? "the generator does not return" : "memory fault"); }
static int run(int argc, ...);
static int go(long a, long b) {
  char s0[] = "gen", s1[40], s2[40]; char *av[4] = {s0, s1, two ? s2 : NULL, NULL};
  for (int i = 0; i < nf; i++) { if (F[i].f) fclose(F[i].f); free(F[i].buf); F[i].buf = NULL; F[i].f = NULL; }
  nf = 0; cn = a; cp = b; runs++;
  sprintf(s1, "%ld", a); sprintf(s2, "%ld", b);
  alarm(60);
  int r = setjmp(jb);
  if (!r) return gen_main(two ? 3 : 2, av) & 255;
  if (r == 2000) return 134;
  return r - 1000;
}
static void reject(int st, const char *why) {
  if (st == 0) fail(why);
  if (nf) fail("parameters are rejected but a file has been created");
}
static char *file(const char *n) { for (int i = nf - 1; i >= 0; i--) if (!strcmp(F[i].name, n) && !F[i].f) return F[i].buf; return NULL; }
static void blank(char *s) {
  while (*s) {
    if (s[0] == '/' && s[1] == '/') while (*s && *s != '\n') *s++ = ' ';
    else if (s[0] == '/' && s[1] == '*') { while (*s && !(s[0] == '*' && s[1] == '/')) *s++ = ' '; if (*s) { *s++ = ' '; *s++ = ' '; } }
    else s++;
  }
}
/* numbers of the initializer of name[...]; -1 when there is no such definition */
static char *find(char *s, const char *name) {
  size_t k = strlen(name);
  for (char *p = s; (p = strstr(p, name)); p += k) {
    if ((p == s || (!isalnum((unsigned char) p[-1]) && p[-1] != '_')) && !isalnum((unsigned char) p[k]) && p[k] != '_') {
      char *e = p + k; while (*e && *e != '=' && *e != ';') e++;
      if (*e == '=') return e + 1;
    }
  }
  return NULL;
}
static long numbers(char *s, const char *name, int32_t *v, long max) {
  char *p = find(s, name); long k = 0;
  if (!p) return -1;
  for (; *p && *p != ';'; ) {
    if (isdigit((unsigned char) *p) || *p == '-') { char *e; long x = strtol(p, &e, 0); if (e == p) return -1; if (k < max) v[k] = x; k++; p = e; if (isalpha((unsigned char) *p)) return -1; }
    else if (strchr("{}, \t\n", *p)) p++;
    else return -1;
  }
  return k;
}
static unsigned rev(unsigned x, int k) { unsigned r = 0; while (k--) { r = 2 * r + (x & 1); x >>= 1; } return r; }
static int32_t v[1 << 18];
static void oddity(void) { if (odd++ < 40) printf("ODD %ld %ld\n", cn, cp); }
static int istwo(long n) { return n > 0 && !(n & (n - 1)); }
static long pw(long b, long e) { long r = 1; b %= Q; while (e) { if (e & 1) r = r * b % Q; b = b * b % Q; e >>= 1; } return r; }
static long P[4096 * 4];                          /* powers of psi, exponents modulo 2n */
static void check(const char *what, long i, long x, long want, int red) {
  char m[300];
  want %= Q; if (want < 0) want += Q;
  if (red && want > 6144) want -= Q;
  if (x != want) { sprintf(m, "%s[%ld] is %ld, should be %ld", what, i, x, want); fail(m); }
}
static long ex(long e, long n) { e %= 2 * n; if (e < 0) e += 2 * n; return P[e]; }
static void table(char *c, const char *pre, const char *nm, long n, int red, long s, int kind, long x, long y) {
  char full[100]; sprintf(full, "%s_%s", pre, nm);
  long k = numbers(c, full, v, 1 << 18);
  if (k < 0) { oddity(); return; }
  if (k != n) { char m[200]; sprintf(m, "%s has %ld entries", full, k); fail(m); }
  if (kind == 0) { for (long i = 0; i < n; i++) check(full, i, v[i], s * ex(y * i, n), red); return; }
  int lg = 0;
  for (long t = 1; t < n; t *= 2, lg++)
    for (long j = 0; j < t; j++) check(full, t + j, v[t + j], s * ex((n / (2 * t)) * (x + y * (kind == 2 ? (long) rev(j, lg) : j)), n), red);
}
static void constant(char *h, const char *pre, const char *nm, long want) {
  char full[100]; sprintf(full, "%s_%s", pre, nm);
  long k = numbers(h, full, v, 4);
  if (k != 1) { oddity(); return; }
  check(full, 0, v[0], want, 0);
}
static void contents(long n, long psi, int red) {
  char pre[40], nm[60]; sprintf(pre, red ? "ntt_red%ld" : "ntt%ld", n);
  sprintf(nm, "%s_tables.h", pre); char *h = file(nm);
  sprintf(nm, "%s_tables.c", pre); char *c = file(nm);
  if (!h || !c || nf != 2) fail("the two files are not written and closed");
  blank(h); blank(c);
  P[0] = 1; for (long i = 1; i < 2 * n; i++) P[i] = P[i - 1] * psi % Q;
  long i3 = pw(3, Q - 2), in = pw(n, Q - 2), s = red ? i3 : 1, s8 = pw(i3, 8) * in % Q, s6 = pw(i3, 6) * in % Q;
  table(c, pre, "psi_powers", n, red, s, 0, 0, 1);
  table(c, pre, "inv_psi_powers", n, red, s, 0, 0, -1);
  table(c, pre, "scaled_inv_psi_powers", n, red, red ? s8 : in, 0, 0, -1);
  if (red) { table(c, pre, "scaled_inv_psi_powers_var", n, 1, s6, 0, 0, -1); table(c, pre, "psi_powers_rev", n, 1, s, 2, 0, 1); }
  else table(c, pre, "inv_psi_powers_rev", n, 0, 1, 2, 0, -1);
  table(c, pre, "omega_powers", n, red, s, 1, 0, 2); table(c, pre, "omega_powers_rev", n, red, s, 2, 0, 2);
  table(c, pre, "inv_omega_powers", n, red, s, 1, 0, -2); table(c, pre, "inv_omega_powers_rev", n, red, s, 2, 0, -2);
  table(c, pre, "mixed_powers", n, red, s, 1, 1, 2); table(c, pre, "mixed_powers_rev", n, red, s, 2, 1, 2);
  table(c, pre, "inv_mixed_powers", n, red, s, 1, -1, -2); table(c, pre, "inv_mixed_powers_rev", n, red, s, 2, -1, -2);
  constant(h, pre, "psi", psi); constant(h, pre, "omega", ex(2, n)); constant(h, pre, "inv_psi", ex(-1, n)); constant(h, pre, "inv_omega", ex(-2, n)); constant(h, pre, "inv_n", in);
  if (red) { constant(h, pre, "inv_k", i3); constant(h, pre, "rescale8", s8); constant(h, pre, "rescale6", s6); }
}
static void bitrev(long n) {
  char nm[60]; int k = 0; while ((1L << k) < n) k++;
  sprintf(nm, "bitrev%ld_table.h", n); char *h = file(nm);
  sprintf(nm, "bitrev%ld_table.c", n); char *c = file(nm);
  if (!h || !c || nf != 2) fail("the two files are not written and closed");
  blank(h); blank(c);
  sprintf(nm, "bitrev%ld", n);
  long z = numbers(c, nm, v, 1 << 18), want = 0;
  if (z < 0) { oddity(); return; }
  for (long i = 0; i < n; i++) want += i < (long) rev(i, k);
  char m[200];
  sprintf(m, "the table has %ld numbers, should have %ld", z, 2 * want);
  if (z != 2 * want) fail(m);
  static char seen[1 << 18]; memset(seen, 0, sizeof seen);
  for (long i = 0; i < z; i += 2) {
    sprintf(m, "pair %ld is (%d, %d)", i / 2, v[i], v[i + 1]);
    if (v[i] < 0 || v[i] >= n || v[i + 1] != (int) rev(v[i], k) || v[i] >= v[i + 1] || v[i + 1] > 65535) fail(m);
    if (seen[v[i]]++) { sprintf(m, "pair (%d, %d) occurs twice", v[i], v[i + 1]); fail(m); }
  }
  sprintf(nm, "BITREV%ld_NPAIRS", n);
  char *p = strstr(h, nm);
  if (!p) { oddity(); return; }
  char *e; long np = strtol(p + strlen(nm), &e, 0);
  if (e == p + strlen(nm)) { oddity(); return; }
  if (np != want) { sprintf(m, "%s is %ld, should be %ld", nm, np, want); fail(m); }
}
int main(int argc, char **argv) {
  signal(SIGSEGV, onsig); signal(SIGBUS, onsig); signal(SIGFPE, onsig); signal(SIGILL, onsig); signal(SIGABRT, onsig); signal(SIGALRM, onsig);
  freopen("/dev/null", "w", stderr);
  int kind = !strcmp(argv[1], "bitrev") ? 2 : !strcmp(argv[1], "red");
  long lo = atol(argv[2]), hi = atol(argv[3]), plo = atol(argv[4]), phi = atol(argv[5]), stride = atol(argv[6]), off = atol(argv[7]), seen = 0;
  two = kind != 2;
  for (long n = lo; n <= hi; n++) {
    if (kind == 2) {
      int st = go(n, 0);
      if (!istwo(n) || n > 65536) reject(st, "a size that is not a power of two up to 65536 is accepted");
      else if (st == 0) bitrev(n);
      else if (n >= 2 && n <= 32768) fail("a power of two between 2 and 32768 is rejected");
      else reject(st, "");
      continue;
    }
    if (!istwo(n) && n > 0) {                     /* psi^n = -1, but n is no power of two */
      long a = 1, m = n; while (!(m & 1)) { m >>= 1; a *= 2; }
      if (a <= 2048) reject(go(n, pw(11, 6144 / a)), "a size that is not a power of two is accepted");
    }
    for (long psi = plo; psi <= phi; psi++) {
      int good = istwo(n) && n < 100000 && psi >= 2 && psi < Q && pw(psi, n) == Q - 1;
      if (good && seen++ % stride != off) continue;
      int st = go(n, psi);
      if (!good) { reject(st, "parameters that give no primitive 2n-th root are accepted"); continue; }
      if (st == 0) contents(n, psi, kind);
      else if (n >= 2) fail("a primitive 2n-th root is rejected");
    }
  }
  printf("runs %ld\n", runs);
  return 0;
}
