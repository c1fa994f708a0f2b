#!/bin/bash
# build.sh OUTDIR [REPO]: compile the replay driver from REPO's current working tree
set -e
OUT=$1; R=${2:-/repo}; H=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$OUT"; cd "$OUT"
CF="-g -O1 -w -fsanitize=address -fno-omit-frame-pointer -DSIMD_USE_ACCEL=1 -DRFX_USE_ACCEL_AMD64=1 -I$R/include -I$R/src"
WR="-Dcalloc=vf_calloc -Dfree=vf_free -Dmalloc=vf_malloc -Dcpuid_amd64=vf_cpuid_amd64"
pids=()
for f in $R/src/*.c $R/src/amd64/*.c; do
  gcc $CF $WR -c "$f" -o "r_$(basename "$f" .c).o" & pids+=($!)
done
for f in $R/src/amd64/*.asm; do
  nasm -f elf64 -DASM_ARCH_AMD64 -I$R/src/ -I$R/src/amd64/ "$f" -o "r_$(basename "$f" .asm)_asm.o" & pids+=($!)
done
gcc $CF -c $H/conf.c -o conf.o & pids+=($!)
for p in "${pids[@]}"; do wait $p; done
objcopy --redefine-sym cpuid_amd64=real_cpuid_asm r_cpuid_amd64_asm.o
gcc -fsanitize=address -g conf.o r_*.o -o conf
