#!/bin/bash
# seedtest.sh ID: confirm a planted bug in a scratch copy (builds, stable tests pass, demo distinguishes). Uses /tmp/sr.
set -e
id=$1; S=/verif/seeded/$id
if [ ! -d /tmp/sr ]; then
  mkdir /tmp/sr; git -C /repo archive HEAD | tar x -C /tmp/sr; (cd /tmp/sr; git init -q; git add -A; git -c user.name=a -c user.email=a@b commit -qm x)
  sed 's#/repo#/tmp/sr#g' /opt/vp/build.sh > /tmp/sr_build.sh; sed 's#/repo#/tmp/sr#g' /opt/vp/test.sh > /tmp/sr_test.sh
fi
cd /tmp/sr; git checkout -q -- .; 
if [ "$(git -C /repo rev-parse HEAD)" != "$(cat /tmp/sr_head 2>/dev/null)" ]; then
  git -C /repo archive HEAD | tar x -C /tmp/sr; git add -A; git -c user.name=a -c user.email=a@b commit -qm x || true; git -C /repo rev-parse HEAD > /tmp/sr_head
fi
(bash $S/demo.sh >/tmp/seed/demo0.log 2>&1) && echo "demo clean: ok" || { echo "demo clean: FAILS"; tail -5 /tmp/seed/demo0.log; }
git apply $S/patch.diff
bash /tmp/sr_build.sh > /tmp/seed/build.log 2>&1 || { echo BUILD FAILED; tail -20 /tmp/seed/build.log; git checkout -q -- .; exit 1; }
(bash $S/demo.sh >/tmp/seed/demo1.log 2>&1) && echo "demo patched: PASSES (bad)" || echo "demo patched: fails as wanted"
if [ "$2" != notest ]; then bash /tmp/sr_test.sh /tmp/seed/out.json >/tmp/seed/test.log 2>&1 || true; python3 /verif/tools/cmp.py /tmp/seed/out.json; fi
git checkout -q -- .
