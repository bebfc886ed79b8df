#!/bin/bash
# development aid: run the checks against planted bugs in a scratch copy of /repo (never used by MANIFEST commands)
# usage: runseeds.sh [bug id ...]   (default: all)
rm -rf /tmp/vcopy; mkdir -p /tmp/vcopy /tmp/vcopy_build
rm -rf /tmp/rcopy; cp -a /repo /tmp/rcopy; rm -rf /tmp/rcopy/target
cp -a /verif/check.py /verif/engine /verif/harness /verif/irlib /verif/replay /verif/known_findings.json /tmp/vcopy/
sed -i 's#"/repo"#"/tmp/rcopy"#' /tmp/vcopy/irlib/Cargo.toml /tmp/vcopy/replay/Cargo.toml
export VP_BUILD=/tmp/vcopy_build
ids="$*"; [ -z "$ids" ] && ids=$(ls /verif/seeded)
for b in $ids; do
  (cd /tmp/rcopy && git checkout -q -- . && git apply /verif/seeded/$b/patch.diff) || { echo "$b: patch does not apply"; continue; }
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$b/meta.json'))['property'])")
  s=$(date +%s)
  (cd /tmp/vcopy && VERIF_SEED=1 VERIF_TIER=quick ./check.py $p > /tmp/vcopy/out.txt 2>&1); rc=$?
  echo "$b $p rc=$rc $(( $(date +%s) - s ))s $(grep -m1 '^# ' /tmp/vcopy/out.txt | cut -c1-160) $( [ $rc -ne 1 ] && tail -2 /tmp/vcopy/out.txt | cut -c1-300)"
done
