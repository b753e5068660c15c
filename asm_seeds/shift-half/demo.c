#include <stdio.h>
#include <stdlib.h>
#include "ntt_red.h"
#include "ntt_asm.h"
int main(void) {
  int32_t a[16], b[16];
  for (int x = 0; x <= 12288; x++) {
    for (int i = 0; i < 16; i++) a[i] = b[i] = x;
    shift_array(a, 16); shift_array_asm(b, 16);
    for (int i = 0; i < 16; i++) if (abs(a[i]) > 6144 || abs(b[i]) > 6144) { printf("%d -> %d %d\\n", x, a[i], b[i]); return 1; }
  }
  return 0;
}
