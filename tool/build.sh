#!/bin/bash
# Builds the extractor into /verif/build/nsx (idempotent, locked).
set -e
D="$(cd "$(dirname "$0")" && pwd)"
B="$D/../build"
mkdir -p "$B"
exec 9>"$B/.lock"
flock 9
H=$(sha256sum "$D/nsx.cpp" | cut -c1-16)
if [ -x "$B/nsx-$H" ]; then exit 0; fi
L=/usr/lib/llvm-18
clang++ -std=c++17 -O1 -fno-rtti -fno-exceptions -I$L/include -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS \
   "$D/nsx.cpp" -o "$B/nsx-$H.tmp" -L$L/lib -l:libclang-cpp.so.18.1 -lLLVM-18 -Wl,-rpath,$L/lib
mv "$B/nsx-$H.tmp" "$B/nsx-$H"
