/* Runs the real avx2_supported with CPUID and XGETBV replaced by traps that return chosen words.
   argv: image.so seed thorough words|- addr:op ... ; words = ecx1,ebx7,xcr0,xcr0hi,eax0,ebx1,edx1,eax1,eax7,ecx7,edx7 */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <signal.h>
#include <unistd.h>
#include <dlfcn.h>
#include <link.h>
#include <ucontext.h>
#include <sys/mman.h>
static struct { unsigned long addr; int xget; } P[64]; static int np;
static uint32_t ecx1, ebx7, xcr0, xcr0hi, eax0, ebx1, edx1, eax1, eax7, ecx7, edx7;
static const char *bad;
static uint64_t rs = 88172645463325252ull;
static uint32_t rnd(void) { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs >> 16; }
static long runs;
static void show(const char *why) {
  printf("FAIL %s\necx1 0x%x\nebx7 0x%x\nxcr0 0x%x\nxcr0hi 0x%x\neax0 0x%x\n", why, ecx1, ebx7, xcr0, xcr0hi, eax0);
  fflush(stdout); _exit(1);
}
static void trap(int s, siginfo_t *si, void *uc_) {
  ucontext_t *uc = uc_; greg_t *g = uc->uc_mcontext.gregs;
  (void) si;
  if (s != SIGTRAP) show(s == SIGALRM ? "the call does not return" : s == SIGILL ? "illegal instruction" : "memory fault");
  unsigned long pc = g[REG_RIP] - 1; int k;
  for (k = 0; k < np; k++) if (P[k].addr == pc) break;
  if (k == np) show("unexpected trap");
  if (P[k].xget) {
    if (!(ecx1 >> 27 & 1)) bad = "XGETBV executed although OSXSAVE is not reported";
    if ((uint32_t) g[REG_RCX] != 0) bad = "XGETBV does not read XCR0";
    g[REG_RAX] = xcr0; g[REG_RDX] = xcr0hi; g[REG_RIP] = pc + 3;
  } else {
    uint32_t leaf = g[REG_RAX], sub = g[REG_RCX], a, b, c, d;
    if (leaf == 0) { a = eax0; b = 0x756e6547; c = 0x6c65746e; d = 0x49656e69; }
    else if (leaf == 1) { a = eax1; b = ebx1; c = ecx1; d = edx1; }
    else if (leaf == 7 && sub == 0) { a = eax7; b = ebx7; c = ecx7; d = edx7; }
    else { a = b = c = d = rnd(); if (leaf == 7) b = ~ebx7; }
    g[REG_RAX] = a; g[REG_RBX] = b; g[REG_RCX] = c; g[REG_RDX] = d; g[REG_RIP] = pc + 2;
  }
}
extern long probe(void *f, uint64_t *saved);
__asm__(".text\n.globl probe\nprobe:\n push %rbx\n push %rbp\n push %r12\n push %r13\n push %r14\n push %r15\n push %rsi\n"
  " mov $0x1111111122222222,%rbx\n mov $0x3333333344444444,%rbp\n mov $0x5555555566666666,%r12\n mov $0x7777777788888888,%r13\n mov $0x99999999aaaaaaaa,%r14\n mov $0xbbbbbbbbcccccccc,%r15\n"
  " mov $0xdeadbeefdeadbeef,%rax\n mov $0xdeadbeefdeadbeef,%rcx\n mov $0xdeadbeefdeadbeef,%rdx\n mov %rdi,%r11\n mov $0xdeadbeefdeadbeef,%rdi\n"
  " call *%r11\n pop %rsi\n mov %rbx,0(%rsi)\n mov %rbp,8(%rsi)\n mov %r12,16(%rsi)\n mov %r13,24(%rsi)\n mov %r14,32(%rsi)\n mov %r15,40(%rsi)\n"
  " pop %r15\n pop %r14\n pop %r13\n pop %r12\n pop %rbp\n pop %rbx\n ret\n");
static void *fn;
static void one(void) {
  uint64_t s[6];
  static const uint64_t w[6] = { 0x1111111122222222, 0x3333333344444444, 0x5555555566666666, 0x7777777788888888, 0x99999999aaaaaaaa, 0xbbbbbbbbcccccccc };
  if (ecx1 >> 27 & 3) if (eax0 < 13) eax0 = 13;
  bad = 0; runs++;
  long r = probe(fn, s) & 0xff;
  int want = (ecx1 >> 27 & 3) == 3 && (ebx7 >> 5 & 1) && (xcr0 & 6) == 6;
  if (bad) show(bad);
  if (r != want) show(want ? "returns something other than 1 although all features are there" : "returns something other than 0 although a feature is missing");
  if (memcmp(s, w, sizeof w)) show("a callee-saved register is not preserved");
}
static void noise(int k) {
#define F(v) v = k == 0 ? 0 : k == 1 ? 0xffffffff : rnd()
  F(ecx1); F(ebx7); F(xcr0); F(xcr0hi); F(ebx1); F(edx1); F(eax1); F(eax7); F(ecx7); F(edx7); eax0 = k == 0 ? 7 : k == 1 ? 0x16 : 7 + rnd() % 30;
}
int main(int argc, char **argv) {
  void *h = dlopen(argv[1], RTLD_NOW);
  struct link_map *lm;
  if (!h) { printf("dlopen %s\n", dlerror()); return 3; }
  dlinfo(h, RTLD_DI_LINKMAP, &lm);
  fn = dlsym(h, "avx2_supported");
  if (!fn) return 3;
  rs += strtoul(argv[2], 0, 10) * 2654435761u;
  int th = atoi(argv[3]);
  for (int i = 5; i < argc; i++) {
    char *c = strchr(argv[i], ':');
    P[np].addr = lm->l_addr + strtoul(argv[i], 0, 10); P[np].xget = !strcmp(c + 1, "xgetbv");
    mprotect((void *) (P[np].addr & ~4095ul), 8192, PROT_READ | PROT_WRITE | PROT_EXEC);
    *(uint8_t *) P[np].addr = 0xCC; np++;
  }
  struct sigaction sa = { .sa_sigaction = trap, .sa_flags = SA_SIGINFO | SA_NODEFER };
  sigaction(SIGTRAP, &sa, 0); sigaction(SIGSEGV, &sa, 0); sigaction(SIGILL, &sa, 0); sigaction(SIGALRM, &sa, 0); sigaction(SIGBUS, &sa, 0);
  alarm(60);
  if (argv[4][0] != '-') {
    sscanf(argv[4], "%u,%u,%u,%u,%u,%u,%u,%u,%u,%u,%u", &ecx1, &ebx7, &xcr0, &xcr0hi, &eax0, &ebx1, &edx1, &eax1, &eax7, &ecx7, &edx7);
    one();
  }
  for (int rep = 0; rep < (th ? 200 : 20); rep++)
    for (int a = 0; a < 4; a++) for (int b = 0; b < 2; b++) for (int c = 0; c < 8; c++) {
      noise(rep);
      ecx1 = (ecx1 & ~0x18000000u) | (uint32_t) a << 27; ebx7 = (ebx7 & ~0x20u) | (uint32_t) b << 5; xcr0 = (xcr0 & ~7u) | c;
      one();
    }
  for (int i = 0; i < 32; i++) for (int z = 0; z < 2; z++) {    // all features on, one other bit changed, others 0 or 1
    for (int v = 0; v < 4; v++) {
      noise(z); ecx1 |= 0x18000000; ebx7 |= 0x20; xcr0 |= 6;
      if (v == 0) ecx1 ^= 1u << i;
      if (v == 1) ebx7 ^= 1u << i;
      if (v == 2) xcr0 ^= 1u << i;
      if (v == 3) xcr0hi ^= 1u << i;
      one();
    }
  }
  printf("runs %ld\n", runs);
  return 0;
}
