#!/bin/bash
# tools/tryseed.sh [--tests] <seed dir>... : try planted bugs in a scratch copy (demo before/after, own check), optionally
# run the repository's tests with all given patches applied together
T=0; [ "$1" = --tests ] && { T=1; shift; }
W=$(mktemp -d /tmp/seedws.XXXXXX); cp -a /repo "$W/r"
cat > "$W/r/sitecustomize.py" <<'P'
import sys
sys.meta_path[:] = [f for f in sys.meta_path if 'ScikitBuild' not in type(f).__name__]
P
export PATH=/opt/venv/bin:$PATH OPENBLAS_CORETYPE=Haswell MPLBACKEND=Agg
for d in "$@"; do d=$(realpath "$d");
  id=$(basename "$d"); p=$(python3 -c "import json,sys;print(json.load(open('$d/meta.json'))['property'])")
  cp -a "$d" "$W/demo_$id"
  (cd "$W/r" && timeout 300 bash "$W/demo_$id/demo.sh" >"$W/o1" 2>&1); a=$?
  git -C "$W/r" apply "$d/patch.diff" || { echo "$id: patch does not apply"; continue; }
  (cd "$W/r" && timeout 300 bash "$W/demo_$id/demo.sh" >"$W/o2" 2>&1); b=$?
  (cd /verif && VERIF_REPO="$W/r" timeout 900 python3 -m sa.check "$p" >"$W/o3" 2>&1); c=$?
  echo "$id [$p]: demo clean=$a patched=$b check=$c $(grep -c '^VIOLATION' "$W/o3")"
  [ $a != 0 ] && tail -5 "$W/o1"
  [ $c = 1 ] && grep -m2 'broken:' "$W/o3" | cut -c1-200
  [ $T = 1 ] || git -C "$W/r" checkout -q -- .
done
if [ $T = 1 ]; then
  sed "s#/repo#$W/r#g" /opt/vp/test.sh > "$W/test.sh"
  timeout 1800 bash "$W/test.sh" "$W/out.json" > "$W/test.log" 2>&1
  python3 - "$W/out.json" <<'P'
import json, sys
o = json.load(open(sys.argv[1])); base = json.load(open('/opt/vp/BASELINE.json'))['stable']
print('stable not passing:', [b for b in base if b not in o.get('passed', [])])
P
fi
rm -rf "$W"
