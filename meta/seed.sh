#!/bin/bash
# seed.sh ID...: confirms planted bugs in a private copy bound over /repo: the demonstration passes on the unchanged tree;
# with the patch the build succeeds, the demonstration fails and the stable tests pass (NOTEST=1 leaves the tests out).
for id in "$@"; do
  S=/verif/seeded/$id; W=/tmp/wt.$id; L=/tmp/seed.$id.log
  rm -rf "/tmp/wt.$id"; cp -a /repo $W; git -C $W checkout -q -- .
  unshare -Urm bash -c "mount --bind $W /repo && cd /repo && {
    timeout 300 bash $S/demo.sh > $L 2>&1 || { echo '$id: demo fails on the unchanged tree'; tail -3 $L; exit; }
    git apply $S/patch.diff || { echo '$id: patch does not apply'; exit; }
    bash /opt/vp/build.sh >> $L 2>&1 || { echo '$id: build fails'; exit; }
    timeout 300 bash $S/demo.sh >> $L 2>&1 && { echo '$id: demo passes with the patch'; exit; }
    if [ '$NOTEST' = '' ]; then bash /opt/vp/test.sh /tmp/seed.$id.json >> $L 2>&1
    python3 -c \"
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/seed.$id.json'))
m=[t for t in b['stable'] if t not in set(r['passed'])]
print('$id: confirmed' if not m else '$id: tests fail: %s' % m[:5])\"; else echo '$id: demo fails as it should (tests not run)'; fi; }"
  rm -rf "/tmp/wt.$id"
done
