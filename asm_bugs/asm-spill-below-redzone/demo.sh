#!/bin/bash
# run in the repository after the build; exit 0 = behaviour as documented
set -u
D=$(cd "$(dirname "$0")" && pwd)
R=$(pwd)
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
B=$R/_build/src
gcc -std=gnu11 -O2 -mavx2 -I"$B" -o "$T/d" "$D/demo.c" "$B/ntt_red.c" "$B/ntt_asm.S" || exit 2
"$T/d"
