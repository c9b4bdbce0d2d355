#!/bin/bash
# builds symx into $1 (default /verif/.build/symx)
set -e
here="$(cd "$(dirname "$0")" && pwd)"
out="${1:-$here/../.build/symx}"
mkdir -p "$(dirname "$out")"
CXX=$(command -v clang++ || command -v clang++-18 || command -v g++)
inc=$(llvm-config-18 --includedir 2>/dev/null || echo /usr/lib/llvm-18/include)
lib=$(llvm-config-18 --libdir 2>/dev/null || echo /usr/lib/llvm-18/lib)
$CXX -O2 -g1 -std=c++17 -I"$inc" -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS \
  -Wno-deprecated-declarations "$here/symx.cpp" -o "$out.tmp.$$" -L"$lib" -lLLVM-18 -lz3 -Wl,-rpath,"$lib"
mv "$out.tmp.$$" "$out"
