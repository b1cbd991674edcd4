#!/bin/bash
# Verifies a planted bug: tools/seed.sh DIR [check ids...]
# Uses a scratch copy of /repo bind-mounted over /repo in a private mount namespace.
dir=$(realpath "$1"); shift
scratch=/tmp/seedrepo.$$
cp -a /repo "$scratch"
unshare -m bash -s "$scratch" "$dir" "$@" <<'X'
scratch=$1; dir=$2; shift 2
mount --bind "$scratch" /repo || exit 9
cd /repo
bash /opt/vp/build.sh >/tmp/seed.log 2>&1 || echo "base build failed"
timeout 300 bash "$dir/demo.sh" >/tmp/seed.demo0 2>&1; echo "demo on base: $? (want 0)"
git apply "$dir/patch.diff" || { echo "patch does not apply"; exit 9; }
bash /opt/vp/build.sh >/tmp/seed.log 2>&1 || { echo "build failed"; tail -20 /tmp/seed.log; exit 9; }
timeout 300 bash "$dir/demo.sh" >/tmp/seed.demo1 2>&1; echo "demo on patched: $? (want non-zero)"
bash /opt/vp/test.sh /tmp/seed.json >/dev/null 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/seed.json'))
s=str(b)[:0]
ok=set(b.get('stable') or b.get('passed') or b.get('tests') or [])
p=set(r.get('passed') or [])
print("stable tests failing:", sorted(ok-p) if ok else (list(b)[:5], list(r)[:5]))
P
cd /verif
for c in "$@"; do
  VP_BUILD=/tmp/seedbuild timeout 900 python3 run.py check $c > /tmp/seed.$c 2>&1; echo "check $c: exit $? $(grep -h VIOLATION /tmp/seed.$c | head -1)"
done
X
rm -rf "$scratch"
