#!/bin/bash
# Usage: seedtest.sh SEED [PROPERTY...]: confirms that a planted bug counts and runs the checks against it.
seed="$1"; shift
dir=/verif/seeded/$seed
props="$*"
[ -n "$props" ] || props=$(python3 -c "import json;print(json.load(open('$dir/meta.json'))['property'])")
cd /repo || exit 1
[ -z "$(git status --short)" ] || { echo "repo isn't clean"; exit 1; }
trap 'git -C /repo checkout -q -- .; bash /opt/vp/build.sh >/dev/null 2>&1' EXIT
demo=$(mktemp -d /tmp/demo.XXXX); cp "$dir"/* "$demo"; rm -f "$demo"/patch.diff "$demo"/meta.json
if [ -z "$SKIP" ]; then
bash /opt/vp/build.sh || exit 1
if ! bash "$demo/demo.sh" >"$demo/log" 2>&1; then echo "$seed: demo fails on the unchanged tree"; tail -5 "$demo/log"; exit 1; fi
fi
git apply "$dir/patch.diff" || exit 1
if [ -z "$SKIP" ]; then
bash /opt/vp/build.sh || { echo "$seed: doesn't build"; exit 1; }
bash /opt/vp/test.sh "$demo/out.json" >/dev/null 2>&1
python3 - "$demo/out.json" "$seed" <<'P' || exit 1
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open(sys.argv[1]))
def names(x):
    x=x.get('passed',x) if isinstance(x,dict) else x
    return set(x)
base=b.get('stable') or b.get('passed') or b
missing=set(base)-set(o['passed'])
if missing: print(sys.argv[2]+': tests fail:',list(missing)[:3]); sys.exit(1)
P
bash /opt/vp/build.sh
if bash "$demo/demo.sh" >"$demo/log" 2>&1; then echo "$seed: demo passes with the patch"; exit 1; fi
tail -2 "$demo/log" | cut -c1-200
fi
for p in $props; do
  (cd /verif && VERIF_SEED=1 VERIF_TIER=quick bash run.sh $p) >"$demo/check.log" 2>&1; rc=$?
  echo "$seed: check $p exit $rc $(grep -c '^VIOLATION' "$demo/check.log")"; grep -v '^VIOLATION' "$demo/check.log" | head -${LINES_SHOWN:-3} | cut -c1-300
done
rm -rf "$demo"
