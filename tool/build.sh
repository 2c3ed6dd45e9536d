#!/bin/bash
# builds the syntax-tree extractor into /verif/tool/bin (git-ignored)
set -e
cd "$(dirname "$0")"
mkdir -p bin
if [ bin/extract -nt extract.cpp ]; then exit 0; fi
LL=/usr/lib/llvm-18
clang++ -std=c++17 -O1 -fno-rtti -I$LL/include -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS \
  extract.cpp -o bin/extract.tmp$$ -L$LL/lib -l:libclang-cpp.so.18.1 -lLLVM-18 -Wl,-rpath,$LL/lib
mv bin/extract.tmp$$ bin/extract
