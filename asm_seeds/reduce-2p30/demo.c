#include <stdio.h>
#include <stdlib.h>
#include "ntt_red.h"
#include "ntt_asm.h"
int main(void) {
  static int32_t a[32], b[32];
  for (int v = 0; v < 10000; v++) {
    for (int i = 0; i < 32; i++) b[i] = a[i] = (int32_t) ((uint32_t) random() * 2 + (random() & 1));
    reduce_array(a, 32); reduce_array_asm(b, 32);
    for (int i = 0; i < 32; i++) if (a[i] != b[i]) { printf("%d vs %d\n", a[i], b[i]); return 1; }
  }
  return 0;
}
