#include <stdio.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <unistd.h>
// n bytes ending exactly at an inaccessible page
static void *tail(size_t n) {
  long pg = sysconf(_SC_PAGESIZE);
  size_t sz = (n + pg - 1) / pg * pg;
  char *m = mmap(NULL, sz + pg, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS, -1, 0);
  mprotect(m + sz, pg, PROT_NONE);
  return m + sz - n;
}

 #include "ntt_asm.h"
 int main(void) {
   int32_t *a = tail(64 * 4); int i;
   for (i = 0; i < 64; i++) a[i] = 5000 * i;
   reduce_array_asm2(a, 64);
   for (i = 0; i < 64; i++) if (a[i] != 3 * (5000 * i & 4095) - (5000 * i >> 12)) return 1;
   return 0;
 }
