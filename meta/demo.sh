#!/bin/bash
# compiles demo.cpp (beside this script) against the library in the current directory and runs it
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 3
trap 'rm -rf "$T"' EXIT
INC=$PWD/include
g++ -std=c++11 -O0 -g -fsanitize=address,undefined -fno-sanitize-recover=undefined -w -I"$INC" -I"$D" -DNO_REFLECTION -DNO_CFITSIO -DNO_FFTW -DNO_LAPACK -DNO_GSL -DNO_WCSLIB \
  -DNO_LIBUNWIND -DNO_LIBDWARF -DNO_GOOGLE_PROFILER "$D/demo.cpp" -o "$T/demo" -pthread || exit 4
cd "$T" && ASAN_OPTIONS=exitcode=99:detect_leaks=0 UBSAN_OPTIONS=halt_on_error=1:exitcode=99 timeout 250 "$T/demo"
