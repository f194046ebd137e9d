#!/bin/bash
# tools/seed.sh NAME: makes seeded/NAME/patch.diff from the edits in the scratch copy /tmp/seed and runs the demonstration without and with it
n=$1; d=/verif/seeded/$n; mkdir -p $d
(cd /tmp/seed && git diff > $d/patch.diff; git checkout -q -- .; git status --short | head -3)
run() { (cd /tmp/seed && PYTHONPATH=/tmp/seed/core:/tmp/seed PYTHONDONTWRITEBYTECODE=1 timeout 300 bash $d/demo.sh >/tmp/seed.out 2>&1; echo "$1 exit $?"; tail -3 /tmp/seed.out); }
run "unchanged:"
(cd /tmp/seed && git apply $d/patch.diff && git diff --stat | tail -1)
run "patched:"
(cd /tmp/seed && git checkout -q -- .)
