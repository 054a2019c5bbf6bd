#!/bin/bash
# Builds the symbolic executor into $1 (default: build/ beside this script).
set -e
D="$(cd "$(dirname "$0")" && pwd)"; B="${1:-$D/build}"; mkdir -p "$B"
ZD=/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3
H=$(cat "$D"/*.hpp "$D"/*.cpp "$D"/*.inc "$D"/build.sh | sha256sum | cut -d' ' -f1)
if [ -x "$B/vpsym" ] && [ "$(cat "$B/stamp" 2>/dev/null)" = "$H" ]; then exit 0; fi
(
 flock 9
 if [ -x "$B/vpsym" ] && [ "$(cat "$B/stamp" 2>/dev/null)" = "$H" ]; then exit 0; fi
 g++ -std=c++20 -O2 -w -I"$ZD/include" $(llvm-config-18 --cppflags 2>/dev/null || /usr/lib/llvm-18/bin/llvm-config --cppflags) "$D/main.cpp" -o "$B/vpsym.tmp" \
   -L/usr/lib/llvm-18/lib -lLLVM-18 "$ZD/lib/libz3.so" -Wl,-rpath,"$ZD/lib" -Wl,-rpath,/usr/lib/llvm-18/lib -lgmpxx -lgmp -lpthread
 mv "$B/vpsym.tmp" "$B/vpsym"; echo "$H" > "$B/stamp"
) 9>"$B/lock"
