#!/bin/bash
# Runs in /repo after its build: builds the language server (without Nix and
# Boost, which are absent here) and runs demo.py or demo.cpp against it.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
R=$PWD
O=$R/_build/out
mkdir -p "$T/i/boost/asio" "$T/i/nix/expr" "$T/o"
cp "$D/pool.h" "$T/i/boost/asio/thread_pool.hpp"
echo '#include <boost/asio/thread_pool.hpp>' >"$T/i/boost/asio/post.hpp"
cat >"$T/i/nix/expr/value.hh" <<'H'
#pragma once
namespace nix { typedef enum { nThunk, nInt, nFloat, nBool, nString, nPath, nNull, nAttrs, nList, nFunction, nExternal } ValueType; }
H
cat >"$T/i/nixd-config.h" <<'H'
#define NIXD_VERSION "demo"
#define NIXD_LIBEXEC "/nonexistent"
H
L=$(ls nixd/lspserver/src/*.cpp; find nixd/lib -name '*.cpp' | grep -v -e AttrSetProvider | sort)
[ -f "$D/demo.cpp" ] && L="$L $D/demo.cpp" || L="$L $R/nixd/tools/nixd.cpp"
L="$L $D/primops.cpp"
export T D R O
one() {
  g++ -std=gnu++20 -O0 -w -pthread -I"$T/i" -I"$D" -Ilibnixf/include -I"$O/libnixf/src" -Inixd/include -Inixd/lspserver/include -Inixd/lib \
    -isystem /usr/lib/llvm-18/include -c "$1" -o "$T/o/$(echo "$1" | tr / _).o"
}
export -f one
for F in $L; do echo "$F"; done | xargs -P 8 -I{} bash -c 'one {}' || exit 2
g++ -fuse-ld=lld -pthread "$T"/o/*.o "$O/libnixf/src/libscope-nixf-primops.a" -L"$O/libnixf/src" -lnixf -Wl,-rpath,"$O/libnixf/src" \
  -L/usr/lib/llvm-18/lib -lLLVM-18 -o "$T/demo" || exit 2
ulimit -c 0
mkdir "$T/work"
cd "$T/work" || exit 2
if [ -f "$D/demo.cpp" ]; then timeout 60 "$T/demo"; else timeout 60 python3 -B "$D/demo.py" "$T/demo"; fi
