#!/bin/bash
# usage: tools_mut.sh FILE SED_EXPR -- CMD...   runs CMD against a scratch copy of /repo with the sed edit applied
f=$1; e=$2; shift 3
d=$(mktemp -d /tmp/mut.XXXXXX)
mkdir $d/repo; cp -a /repo/core /repo/ratarmount $d/repo/; cp -a /repo/.git $d/repo/ 2>/dev/null; ln -s /repo/tests $d/repo/tests
sed -i -E "$e" $d/repo/$f
diff /repo/$f $d/repo/$f | head -20
PYVC_REPO=$d/repo PYTHONPATH=$d/repo/core:$d/repo PYTHONDONTWRITEBYTECODE=1 "$@"; rc=$?
rm -rf "$d"
exit $rc
