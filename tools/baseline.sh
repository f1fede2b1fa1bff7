#!/bin/bash
# baseline.sh <id>...: the repository's own tests pass with the planted change (working tree restored afterwards)
for b in "$@"; do
  git -C /repo apply /verif/seeded/$b/patch.diff || { echo "$b does not apply"; continue; }
  bash /opt/vp/build.sh >/tmp/bl.log 2>&1 && bash /opt/vp/test.sh /tmp/bl.json >>/tmp/bl.log 2>&1; echo "$b rc=$? $(python3 -c 'import json;d=json.load(open("/tmp/bl.json"));print(len(d["passed"]),"passed",d["failed"])')"
  git -C /repo checkout -q -- .
done
bash /opt/vp/build.sh >/dev/null 2>&1
