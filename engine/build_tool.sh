#!/bin/bash
# builds the libTooling exporter into $1
set -e
out="$1"; here="$(cd "$(dirname "$0")" && pwd)"
g++ -std=c++17 -O1 -fno-rtti -I/usr/lib/llvm-18/include -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS \
  -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS "$here/cdecfacts.cc" -o "$out.tmp.$$" \
  -L/usr/lib/llvm-18/lib -l:libclang-cpp.so.18.1 -l:libLLVM-18.so -Wl,-rpath,/usr/lib/llvm-18/lib
mv -f "$out.tmp.$$" "$out"
