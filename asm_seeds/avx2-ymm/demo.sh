#!/bin/bash
# runs the routine from the built object with cpuid and xgetbv replaced by calls to stand-ins
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
sed -e 's/^[[:space:]]*cpuid[[:space:]]*$/        call fake_cpuid/' -e 's/^[[:space:]]*xgetbv[[:space:]]*$/        call fake_xgetbv/' src/ntt_asm.S > "$T/x.S"
cat > "$T/fake.S" <<'EOF'
        .intel_syntax noprefix
        .globl fake_cpuid
fake_cpuid:
        cmp eax, 7
        je 1f
        mov ecx, [rip+f_ecx1]
        xor ebx, ebx
        ret
1:      mov ebx, [rip+f_ebx7]
        xor ecx, ecx
        ret
        .globl fake_xgetbv
fake_xgetbv:
        mov eax, [rip+f_xcr0]
        xor edx, edx
        ret
EOF
cat > "$T/m.c" <<'EOF'
#include <stdio.h>
#include <stdint.h>
uint32_t f_ecx1, f_ebx7, f_xcr0;
extern uint32_t avx2_supported(void);
int main(void) {
  for (int a = 0; a < 4; a++) for (int b = 0; b < 2; b++) for (int c = 0; c < 8; c++) {
    f_ecx1 = (uint32_t) a << 27; f_ebx7 = (uint32_t) b << 5; f_xcr0 = c;
    uint32_t want = a == 3 && b == 1 && (c & 6) == 6;
    if ((avx2_supported() & 1) != want) { printf("osxsave/avx %d avx2 %d xcr0 %d\n", a, b, c); return 1; }
  }
  return 0;
}
EOF
gcc -no-pie -o "$T/demo" "$T/m.c" "$T/fake.S" "$T/x.S" 2>"$T/log" || { cat "$T/log"; exit 3; }
timeout 60 "$T/demo"
