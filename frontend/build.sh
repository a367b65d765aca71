#!/bin/bash
# Builds the clang front end into /verif/build (git-ignored). Offline; uses the installed clang 18 libraries.
set -e
here=$(cd "$(dirname "$0")" && pwd)
out=$here/../build
mkdir -p "$out"
L=/usr/lib/llvm-18
if [ ! -x "$out/pmdump" ] || [ "$here/pmdump.cpp" -nt "$out/pmdump" ]; then
  g++ -O1 -std=c++17 -fno-rtti -fno-exceptions -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS -D_GNU_SOURCE \
    -w -I$L/include "$here/pmdump.cpp" -o "$out/pmdump.tmp" -L$L/lib -l:libclang-cpp.so.18.1 -l:libLLVM.so.1 -Wl,-rpath,$L/lib
  mv "$out/pmdump.tmp" "$out/pmdump"
fi
