#!/bin/bash
# seedcheck.sh <id>...   development aid: is the planted change valid (applies, builds, passes the tests, demo
# 0 clean / nonzero patched)? Works in a scratch copy of /repo bound over by build dirs of its own.
# With SECS=<n> also runs the property's check against the copy.
here=$(cd "$(dirname "$0")/.." && pwd)
w=$(mktemp -d /tmp/u5eseed.XXXXXX); trap 'rm -rf "$w"' EXIT
build() { (cd $w/r && g++ --version >/dev/null && cmake -S $w/r -B $w/r/_b -G Ninja -DCMAKE_BUILD_TYPE=RelWithDebInfo -DCMAKE_POLICY_VERSION_MINIMUM=3.5 -DCMAKE_PROJECT_u5e_INCLUDE=/opt/vp/cmake/apt_googletest.cmake >/dev/null 2>&1 && ninja -C $w/r/_b >$w/log 2>&1); }
git -C /repo archive HEAD | (mkdir -p $w/r && tar x -C $w/r)
CC=gcc CXX=g++ build || { echo "clean build failed"; tail $w/log; exit 1; }
for id in "$@"; do
  s=$here/seeded/$id; [ -d $s ] || { echo "$id: none"; continue; }
  mkdir -p $w/d/$id; cp $s/* $w/d/$id/
  (cd $w/r && bash $w/d/$id/demo.sh >$w/out 2>&1); a=$?
  (cd $w/r && git apply --unsafe-paths --directory= $s/patch.diff 2>$w/err || patch -s -p1 < $s/patch.diff) || { echo "$id: DOES NOT APPLY"; continue; }
  if CC=gcc CXX=g++ build; then
    f=$(cd $w/r/_b && ctest -j8 --timeout 60 2>&1 | grep -E '^[[:space:]]+[0-9]+ - ' | tr '\n' ' '); n=$(cd $w/r/_b && ctest -N 2>/dev/null | tail -1)
    st=$(date +%s); (cd $w/r && bash $w/d/$id/demo.sh >$w/out2 2>&1); b=$?; e=$(($(date +%s)-st))
    v=ok; [ $a = 0 ] || v=BAD; [ $b != 0 ] || v=BAD; [ -z "$f" ] || v=BAD
    echo "$id: $v demo clean=$a patched=$b (${e}s) tests failed: [${f}] of $n | $(tail -1 $w/out2 | cut -c1-150)"
    [ $a = 0 ] || tail -3 $w/out
    if [ -n "$SECS" ]; then p=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])"); o=$(mktemp -d /tmp/u5eout.XXXXXX)
      for q in $p $ALSO; do ts=$(date +%s); echo "   $q: $(U5E_REPO=$w/r U5E_OUT=$o U5E_SECONDS=$SECS python3 $here/check.py $q quick 2>&1 | grep -E 'VIOLATION|held|rror|internal' | tail -2 | cut -c1-260 | tr '\n' ' ') [$(($(date +%s)-ts)) s]"; done; mkdir -p /tmp/replays; cp $o/replays/* /tmp/replays/ 2>/dev/null; rm -rf "$o"; fi
  else echo "$id: DOES NOT BUILD"; grep -m3 error $w/log; fi
  (cd $w/r && patch -s -R -p1 < $s/patch.diff); rm -rf $w/d/$id
done
