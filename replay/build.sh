#!/bin/bash
# build.sh SRC OUT [asan|hooks|bitvec]   build the search driver against the sources in SRC
set -e
src=$1; out=$2; kind=${3:-plain}; here=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$out"
fl="-O1 -g -w -std=gnu++17 -I$src -Wno-pmf-conversions"
case $kind in asan) fl="$fl -fsanitize=address -fno-omit-frame-pointer -D_GLIBCXX_ASSERTIONS";; hooks) fl="$fl -DHOOKS";; bitvec) fl="$fl -DBITVEC";; esac
pids=()
for f in "$src"/*.cc; do
  b=$(basename "$f" .cc); x=""
  [ "$b" = Main ] && x="-Dmain=solver_main"
  [ "$kind" = hooks ] && [ "$b" = Formula ] && x="-finstrument-functions"
  g++ $fl $x -c "$f" -o "$out/$b.o" & pids+=($!)
done
g++ $fl -c "$here/driver.cc" -o "$out/driver.o" & pids+=($!)
for p in "${pids[@]}"; do wait $p; done
g++ $fl "$out"/*.o -o "$out/driver"
