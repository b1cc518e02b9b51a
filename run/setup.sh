#!/bin/bash
# builds the verifier (engine/) into build/ when it is missing or out of date
set -e
V="$(cd "$(dirname "$0")/.." && pwd)"
mkdir -p "$V/build" "$V/evidence"
H=$(cat "$V"/engine/* "$0" | sha1sum | cut -d' ' -f1)
if [ ! -x "$V/build/vpv" ] || [ "$(cat "$V/build/vpv.hash" 2>/dev/null)" != "$H" ]; then
  clang++-18 -std=c++17 -O2 -g0 -fno-rtti -frounding-math -I/usr/lib/llvm-18/include -D_GNU_SOURCE -D__STDC_LIMIT_MACROS -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS \
    "$V/engine/vpv.cpp" -o "$V/build/vpv.tmp.$$" -L/usr/lib/llvm-18/lib -lLLVM-18 -lz3 -lpthread
  mv "$V/build/vpv.tmp.$$" "$V/build/vpv"
  echo "$H" > "$V/build/vpv.hash"
fi
