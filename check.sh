#!/bin/bash
# Usage: check.sh PROPERTY [quick|thorough] [extra driver arguments]
#        check.sh --replay PROPERTY FILE
#        check.sh --build PROPERTY
# Builds the check of one property from /repo's current tree and runs it.
set -u
cd "$(dirname "$0")" || exit 3
VERIF=$(pwd)
REPO=${VERIF_REPO:-/repo}
mode=run
if [ "${1:-}" = "--replay" ]; then mode=replay; shift; fi
if [ "${1:-}" = "--build" ]; then mode=build; shift; fi
P=$1; shift
BUILD=${VERIF_BUILD:-$VERIF/build}
mkdir -p "$BUILD" "$VERIF/evidence" "$BUILD/replays"
CXX=${CXX:-clang++}
COMMON="-std=c++17 -O1 -w -g1 -fno-omit-frame-pointer"
INC="-I$VERIF/sim -I$VERIF/sim/include -I$REPO/include -I$REPO/tests/lib -isystem /usr/include/eigen3 -isystem /usr/include/suitesparse -iquote $REPO/include/albatross -DCEREAL_THREAD_SAFE=1"
INSTR="-fsanitize=thread -mllvm -tsan-instrument-func-entry-exit=0"
SRC=checks/$P.cc
[ -f "$SRC" ] || { echo "no such check: $P" >&2; exit 3; }
LIBS="-lzstd -lz -lspqr -lcholmod -lsuitesparseconfig -lnlopt -lnlopt_cxx"
SHARDS=$(sed -n 's,^// SHARDS: ,,p' "$SRC")
OPT=$(sed -n 's,^// FLAGS: ,,p' "$SRC")
tmp=$(mktemp -d "$BUILD/tmp.XXXXXX") || exit 3
trap 'rm -rf "$tmp"' EXIT
fail() { echo "error: build of $P failed" >&2; cat "$tmp"/*.log >&2; exit 3; }
( $CXX $COMMON $INC -c sim/runtime.cc -o "$tmp/runtime.o" ) > "$tmp/runtime.log" 2>&1 & p1=$!
( $CXX $COMMON $INC -c sim/driver.cc -o "$tmp/driver.o" ) > "$tmp/driver.log" 2>&1 & p2=$!
pids=""
for ((i = 0; i < ${SHARDS:-1}; ++i)); do
  ( $CXX $COMMON $INC $INSTR $OPT -DSHARD=$i -c "$SRC" -o "$tmp/check$i.o" ) > "$tmp/check$i.log" 2>&1 & pids="$pids $!"
done
wait $p1 || fail; wait $p2 || fail
for p in $pids; do wait $p || fail; done
$CXX -no-pie -g1 "$tmp"/check*.o "$tmp/runtime.o" "$tmp/driver.o" -o "$tmp/$P" -Wl,--allow-multiple-definition -Wl,--as-needed $LIBS -lpthread -ldl > "$tmp/link.log" 2>&1 || fail
mv -f "$tmp/$P" "$BUILD/$P"
rm -rf "$tmp"
trap - EXIT
[ "$mode" = build ] && exit 0
if [ "$mode" = replay ]; then exec "$BUILD/$P" --replay "$1"; fi
TIER=${1:-${VERIF_TIER:-quick}}; [ $# -gt 0 ] && shift
SEED=${VERIF_SEED:-1}
if [ "$TIER" = thorough ]; then SECS=${VERIF_SECONDS:-1500}; RECHECK=29; else SECS=${VERIF_SECONDS:-45}; RECHECK=13; fi
exec "$BUILD/$P" --seed "$SEED" --seconds "$SECS" --tier "$TIER" --recheck $RECHECK \
  --evidence "$VERIF/evidence/$P.json" --replay-dir "$BUILD/replays" \
  --known "$VERIF/known_findings.txt" "$@"
