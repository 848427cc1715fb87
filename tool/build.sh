#!/bin/bash
# builds /verif/build/vifx
set -e
D=$(cd "$(dirname "$0")/.." && pwd)
mkdir -p "$D/build"
T=$(mktemp "$D/build/vifx.XXXXXX")
/usr/bin/clang++-18 -std=c++17 -O1 -fno-rtti -w -I/usr/lib/llvm-18/include -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS \
  "$D/tool/vifx.cpp" -o "$T" -L/usr/lib/llvm-18/lib -l:libclang-cpp.so.18.1 -l:libLLVM.so.18.1 -Wl,-rpath,/usr/lib/llvm-18/lib
chmod 755 "$T"
mv "$T" "$D/build/vifx"
sha256sum < "$D/tool/vifx.cpp" | cut -d" " -f1 > "$D/build/vifx.hash"
