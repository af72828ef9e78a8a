#!/bin/bash
# build the symbolic executor; $1 = output dir
set -e
here=$(cd "$(dirname "$0")" && pwd); out=${1:-$here/../build}; mkdir -p "$out/eng"
stamp=$(cat "$here"/*.cpp "$here"/*.h "$here"/*.inc "$here"/build.sh | sha256sum | cut -c1-16)
if [ -x "$out/symx" ] && [ "$(cat "$out/symx.stamp" 2>/dev/null)" = "$stamp" ]; then exit 0; fi
CXX="g++ -O2 -std=c++17 -w $(llvm-config-18 --cppflags)"
for f in expr sat solver exec; do $CXX -c "$here/$f.cpp" -o "$out/eng/$f.o" & done
for p in $(jobs -p); do wait $p; done
g++ -O2 "$out/eng/expr.o" "$out/eng/sat.o" "$out/eng/solver.o" "$out/eng/exec.o" -o "$out/symx.tmp.$$" $(llvm-config-18 --ldflags --libs) -lz3 /usr/lib/libminisat.a -lz -lpthread
mv "$out/symx.tmp.$$" "$out/symx"; echo $stamp > "$out/symx.stamp"
