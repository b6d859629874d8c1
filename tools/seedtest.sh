#!/bin/bash
# seedtest.sh <id> [check ids...]   applies seeded/<id>/patch.diff to /repo, runs tests, demo and checks, undoes it.
# SKIP_TESTS=1 skips the repository's tests; SKIP_CLEAN=1 skips the demo on the unchanged tree.
id=$1; shift; S=/verif/seeded/$id
props="$*"; [ -n "$props" ] || props=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
cd /repo; [ -z "$(git status --porcelain)" ] || { echo "/repo not clean"; exit 2; }
d=$(mktemp -d /tmp/seed.XXXX); for f in $S/*; do case $f in *.diff|*.json) ;; *) cp $f $d/;; esac; done
if [ -z "$SKIP_CLEAN" ]; then bash /opt/vp/build.sh >/dev/null 2>&1; s=$(date +%s); bash $d/demo.sh >$d/clean.log 2>&1; echo "$id demo clean: $? ($(( $(date +%s)-s )) s)"; fi
git apply $S/patch.diff || { echo "$id: patch does not apply"; exit 2; }
trap 'git -C /repo checkout -- .' EXIT
if [ -z "$SKIP_TESTS" ]; then bash /opt/vp/test.sh $d/out.json >/dev/null 2>&1; python3 - $d/out.json <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open(sys.argv[1]))
want=b.get('stable') or []
miss=[t for t in want if t not in set(r['passed'])]
print("tests: %d of %d stable pass; missing %s" % (len(want)-len(miss),len(want),miss[:5]))
P
else bash /opt/vp/build.sh >/dev/null 2>&1; fi
s=$(date +%s); timeout 300 bash $d/demo.sh >$d/patched.log 2>&1; echo "$id demo patched: $? ($(( $(date +%s)-s )) s): $(tail -1 $d/patched.log)"
cd /verif; for p in $props; do s=$(date +%s); python3 tools/check.py $p > $d/check.log 2>&1; rc=$?; echo "$id check $p: exit $rc ($(( $(date +%s)-s )) s) $(grep -a VIOLATION $d/check.log) | $(grep -av '^VIOLATION' $d/check.log | sed -n 2p | cut -c1-220)"; done
git -C /repo checkout -- .; trap - EXIT
rm -rf "$d"
