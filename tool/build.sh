#!/bin/bash
# Builds the AST extractor (once) into /verif/.build
set -e
D=$(cd "$(dirname "$0")/.." && pwd)
mkdir -p "$D/.build"
B="$D/.build/rct-extract"
if [ ! -x "$B" ] || [ "$D/tool/extract.cpp" -nt "$B" ]; then
  T=$(mktemp "$D/.build/rct-extract.XXXXXX")
  clang++ -std=c++17 -O1 -fno-rtti -fno-exceptions -w $(llvm-config-18 --cppflags) "$D/tool/extract.cpp" -o "$T" \
    -L/usr/lib/llvm-18/lib -l:libclang-cpp.so.18.1 -lLLVM-18
  chmod +x "$T"; mv -f "$T" "$B"
fi
