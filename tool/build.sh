#!/bin/bash
# build.sh OUT: compile the extractor
set -e
cd "$(dirname "$0")"
L=/usr/lib/llvm-18
clang++-18 -O2 -w -fno-rtti -std=c++17 -I$L/include -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS -D_GNU_SOURCE extract.cc -o "$1" $L/lib/libclang-cpp.so.18.1 $L/lib/libLLVM.so
