#!/bin/bash
# Builds the analyser into the directory given as $1.
set -e
src=$(cd "$(dirname "$0")" && pwd)
out=$1
mkdir -p "$out"
CXX=clang++-18
command -v $CXX >/dev/null || CXX=g++
FLAGS="$(llvm-config-18 --cxxflags) -O2 -fno-exceptions -fno-rtti -std=c++17 -Wno-unknown-warning-option -w"
pids=
for f in "$src"/*.cpp; do
  o=$out/$(basename "$f" .cpp).o
  if [ ! -f "$o" ] || [ -n "$(find "$src" -newer "$o" \( -name '*.h' -o -name "$(basename "$f")" \) -print -quit)" ]; then
    extra=
    case $f in */poly.cpp|*/ring.cpp) extra=-fexceptions ;; esac
    $CXX $FLAGS $extra -c "$f" -o "$o" &
    pids="$pids $!"
  fi
done
for p in $pids; do wait "$p"; done
$CXX "$out"/*.o -o "$out/tvet" $(llvm-config-18 --ldflags --libs --system-libs --link-shared) -lgmpxx -lgmp
