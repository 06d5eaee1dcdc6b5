#!/bin/bash
# Runs in /repo after its build: compiles demo.cpp against the built library.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
O=$PWD/_build/out
g++ -std=gnu++20 -O0 -w -I"$D" -Ilibnixf/include -I"$O/libnixf/src" -Ilibnixf/src "$D/demo.cpp" "$D/primops.cpp" \
  "$O/libnixf/src/libscope-nixf-primops.a" -L"$O/libnixf/src" -lnixf -Wl,-rpath,"$O/libnixf/src" -o "$T/demo" || exit 2
ulimit -v 4000000
ulimit -c 0
timeout 60 "$T/demo"
