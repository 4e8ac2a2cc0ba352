#!/bin/bash
# seedtest.sh PATCH DEMO [tests]: confirm a planted change in a scratch copy of /repo (demo, and optionally the stable tests)
P=$(realpath "$1"); D=$(realpath "$2"); T=$3
W=$(mktemp -d /tmp/seed.XXXXXX); trap 'rm -rf "$W"' EXIT
cp -a /repo "$W/repo"; cd "$W/repo" || exit 9
git checkout -q -- . 
bash "$D" > "$W/a.log" 2>&1; a=$?
git apply "$P" || { echo "NOAPPLY"; exit 9; }
bash "$D" > "$W/b.log" 2>&1; b=$?
echo "demo: unpatched=$a patched=$b"; [ $a = 0 ] || tail -5 "$W/a.log"; tail -2 "$W/b.log"
if [ -n "$T" ]; then
  sed -e "s#cd /repo/test#cd $W/repo/test#" /opt/vp/test.sh > "$W/test.sh"
  PYTHONPATH="$W/repo/src" bash "$W/test.sh" "$W/out.json" > "$W/t.log" 2>&1
  python3 - "$W/out.json" <<'Q'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; o=json.load(open(sys.argv[1]))
ok=set(o.get('passed',[])) ; bad=[t for t in b if t not in ok]
print('tests: stable', len(b), 'broken', len(bad), bad[:3])
Q
fi
