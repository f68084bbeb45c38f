#!/bin/bash
# plant.sh ID [check]: verifies seeded/ID in a scratch copy: the demo passes
# without the patch and fails with it, the patched tree builds and passes the
# tests, and (with "check") what the property's quick check says.
set -u
id=$1; d=/verif/seeded/$id; w=/tmp/plant/$id
rm -rf "/tmp/plant/$id"; mkdir -p "$w/repo" "$w/demo"
git -C /repo archive HEAD | tar -x -C "$w/repo"
cp -a "$d"/. "$w/demo"/; rm -f "$w/demo/patch.diff" "$w/demo/meta.json"
cd "$w/repo"
timeout 300 bash "$w/demo/demo.sh" > "$w/demo0.log" 2>&1; r0=$?
git init -q . && git apply "$d/patch.diff" || { echo "$id: patch does not apply"; exit 1; }
timeout 300 bash "$w/demo/demo.sh" > "$w/demo1.log" 2>&1; r1=$?
tests=skipped
if [ -z "${NOTEST:-}" ]; then
  sed "s#set(REPO /repo)#set(REPO $w/repo)#" /opt/vp/cmake/CMakeLists.txt > "$w/CMakeLists.txt"
  mkdir -p "$w/cm"; cp /opt/vp/cmake/* "$w/cm"; mv "$w/CMakeLists.txt" "$w/cm/"
  ( CC=gcc CXX=g++ cmake -S "$w/cm" -B "$w/_build" -G Ninja -DCMAKE_BUILD_TYPE=RelWithDebInfo && ninja -C "$w/_build" ) > "$w/build.log" 2>&1 \
   && (cd "$w" && ./_build/albatross_unit_tests > "$w/test.log" 2>&1; tail -3 "$w/test.log") ; tests=$(grep -a "PASSED  \|FAILED  \]" "$w/test.log" | tail -2 | tr '\n' ' ')
fi
echo "$id: demo unpatched=$r0 patched=$r1 tests: $tests"
[ $r0 = 0 ] || tail -5 "$w/demo0.log"; [ $r1 != 0 ] || tail -5 "$w/demo1.log"
if [ -n "${2:-}" ]; then
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  cd /verif; VERIF_REPO=$w/repo VERIF_BUILD=$w/vb ./check.sh "$p" quick 2>&1 | grep -v "^faults\|^probes" | tail -4
fi
rm -rf "/tmp/plant/$id"
