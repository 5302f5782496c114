#!/bin/bash
# seedtest.sh ID [CHECK...]: with seeded/ID applied to /repo: build, tests, demo, checks; then undo.
cd /repo || exit 1
d=/verif/seeded/$1; shift
id=$(basename "$d")
git diff --quiet || { echo "/repo not clean"; exit 1; }
bash "$d/demo.sh" > /tmp/seed.$id.0 2>&1; echo "$id demo unchanged: $? (want 0)"
git apply "$d/patch.diff" || exit 1
if bash /opt/vp/build.sh > /tmp/seed.$id.build 2>&1; then
  [ -n "$NOTEST" ] || { bash /opt/vp/test.sh /tmp/seed.json > /tmp/seed.$id.test 2>&1; tail -1 /tmp/seed.$id.test; }
  bash "$d/demo.sh" > /tmp/seed.$id.1 2>&1; echo "$id demo patched: $? (want nonzero)"; tail -2 /tmp/seed.$id.1
else
  echo "BUILD FAILED"; tail -20 /tmp/seed.$id.build
fi
for c in "$@"; do
  python3 /verif/checks/$c.py > /tmp/seed.$id.$c 2>&1; echo "$id check $c: exit $?"; grep -m1 -A1 VIOLATION /tmp/seed.$id.$c | cut -c1-300
done
git checkout -- .
git status --short | head -3
