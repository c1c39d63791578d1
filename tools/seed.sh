#!/bin/bash
# seed.sh ID: verify the planted bug /verif/seeded/ID in a scratch copy of /repo: the patch applies,
# builds, passes the stable tests, and the demonstration passes without it and fails with it.
# seed.sh catch ID [PROPERTY]: apply it to /repo, run the property's quick check, undo.
. /opt/vp/env.sh
if [ "$1" = catch ]; then
  id=$2; d=/verif/seeded/$id
  p=${3:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
  git -C /repo apply "$d/patch.diff" || exit 2
  bash /verif/check.sh "$p" quick >/tmp/catch.out 2>&1; rc=$?
  git -C /repo checkout -- .
  echo "$id $p rc=$rc $(grep -m1 -A1 VIOLATION /tmp/catch.out | tail -1 | cut -c1-150)"
  exit 0
fi
id=$1; d=/verif/seeded/$id
rm -rf /tmp/seedrepo; cp -a /repo /tmp/seedrepo; cd /tmp/seedrepo || exit 2
git checkout -q -- . 
bash "$d/demo.sh" >/tmp/demo.out 2>&1 || { echo "$id: demo fails on the unchanged tree"; tail -5 /tmp/demo.out; exit 1; }
git apply "$d/patch.diff" || { echo "$id: patch does not apply"; exit 1; }
git diff --stat | tail -1
cargo build --offline --workspace --all-targets >/tmp/sb.out 2>&1 || { echo "$id: does not build"; grep -A8 ^error /tmp/sb.out | head -30; exit 1; }
bash "$d/demo.sh" >/tmp/demo.out 2>&1 && { echo "$id: demo passes with the patch"; exit 1; }
tail -2 /tmp/demo.out
sed 's#/repo#/tmp/seedrepo#g' /opt/vp/test.sh > /tmp/seedtest.sh
bash /tmp/seedtest.sh /tmp/seedtest.json 2>/dev/null | tail -1
rm -rf /tmp/seedrepo
