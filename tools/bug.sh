#!/bin/bash
# tools/bug.sh ID [check...]: confirm a planted bug in /repo (stable tests pass, demo fails), run checks, undo
# the patch must exist as seeded/ID/patch.diff; the demo must pass on the unchanged tree
V=/verif; S=$V/seeded/$1; shift
cd /repo || exit 1
[ -z "$(git status --porcelain)" ] || { echo "repo not clean"; exit 1; }
bash /opt/vp/build.sh >/dev/null 2>&1
bash $S/demo.sh >/tmp/demo0.out 2>&1 && echo "demo clean: ok" || { echo "demo FAILS on clean tree"; tail -5 /tmp/demo0.out; exit 1; }
git apply $S/patch.diff || exit 1
trap 'git -C /repo checkout -q -- .; bash /opt/vp/build.sh >/dev/null 2>&1' EXIT
bash /opt/vp/build.sh >/tmp/build.out 2>&1 || { echo "build fails"; tail -5 /tmp/build.out; exit 1; }
if ! git diff --quiet -- byacc; then
bash /opt/vp/test.sh /tmp/o.json >/dev/null 2>&1
python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/o.json')); m=set(b['stable'])-set(o['passed']); print('stable tests:', 'ok' if not m else 'MISSING %d %s' % (len(m), sorted(m)[:3]))"
fi
bash $S/demo.sh >/tmp/demo1.out 2>&1 && { echo "demo PASSES with the bug"; } || echo "demo with bug: fails ($(tail -1 /tmp/demo1.out | cut -c1-150))"
for p in "$@"; do
  ( cd $V; timeout 900 python3 check.py $p --tier quick >/tmp/chk.out 2>&1; echo "check $p: exit $? $(grep -m1 VIOLATION /tmp/chk.out)" )
done
