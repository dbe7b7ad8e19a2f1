#!/bin/bash
# build.sh OUT DRIVER.cpp [flags] : the driver with the real /repo sources, asserts and sanitizers on
set -e
OUT=$1; DRV=$2; shift 2; cd "$(dirname "$0")"
D=$(dirname "$OUT")
F="-include prelude.h -std=c++17 -O1 -g0 -I/repo/include -I. -DCOIL_CONFIG_ENABLE_ASSERTS=1 -fsanitize=address,undefined -fno-sanitize-recover=all -fno-omit-frame-pointer -w"
X="-DCOIL_CONFIG_CATCH_EXCEPTIONS=1 $*"
pids=()
for s in /repo/src/*.cpp; do clang++ $F $X -c "$s" -o "$D/$(basename "$s").o" & pids+=($!); done
clang++ $F $X -c "$DRV" -o "$D/driver.o" & pids+=($!)
for p in "${pids[@]}"; do wait "$p"; done
clang++ -fsanitize=address,undefined "$D"/*.cpp.o "$D/driver.o" -o "$OUT"
