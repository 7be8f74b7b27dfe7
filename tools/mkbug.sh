#!/bin/bash
# mkbug.sh <id>: /verif/seeded/<id> holds spec.pspec, test.rs, meta.json; the change is the uncommitted diff of the scratch copy /tmp/bug/repo
# confirms the demonstration, the build and the tests, and writes patch.diff and demo.sh
set -e
id=$1; d=/verif/seeded/$id; c=/tmp/bug/repo
[ -f $d/demo.sh ] || { cp /verif/tools/demo/demo.sh $d/; [ -f $d/gen.rs ] || cp /verif/tools/demo/gen.rs $d/; }
git -C $c diff > $d/patch.diff
[ -s $d/patch.diff ] || { echo "no change"; exit 1; }
git -C /repo apply --check $d/patch.diff
(cd /repo && bash $d/demo.sh) > /tmp/bug/clean.log 2>&1 || { echo "demo fails on the clean tree"; tail -20 /tmp/bug/clean.log; exit 1; }
if (cd $c && bash $d/demo.sh) > /tmp/bug/bad.log 2>&1; then echo "demo passes with the change"; exit 1; fi
grep -v "^ *[0-9]*:\|^ *at " /tmp/bug/bad.log | tail -3
# the stable tests on the real tree, patched for the duration
git -C /repo apply $d/patch.diff; trap 'git -C /repo checkout -q -- .' EXIT
bash /verif/.build/t.sh | tail -1
