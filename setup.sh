#!/bin/bash
# builds the source extractor
set -e
cd "$(dirname "$0")"
mkdir -p _build
g++ -O1 -std=c++17 -fno-rtti -I/usr/lib/llvm-18/include \
  -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS -D_GNU_SOURCE \
  tools/cppdump.cpp -o _build/cppdump.tmp -L/usr/lib/llvm-18/lib -l:libclang-cpp.so.18.1 -l:libLLVM-18.so
mv _build/cppdump.tmp _build/cppdump
