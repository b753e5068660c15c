#!/bin/bash
# run in the repository root after the build; exit 0 iff the property's demonstration holds
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
gcc -std=gnu99 -O1  -I_build/src -o "$T/demo" "$D/demo.c" _build/src/ntt_red.o _build/src/ntt_asm.o -Wl,-z,noexecstack 2>"$T/log" || { cat "$T/log"; exit 3; }
timeout 120 "$T/demo"
