#!/bin/bash
# Runs the check of each planted bug's property on a scratch copy with the bug applied.
# usage: runseeds.sh [id...]      (uses copies of /verif and /repo under /tmp)
w=$(mktemp -d /tmp/rs.XXXX)
cp -a /repo $w/repo; mkdir $w/verif; cp -a /verif/{bin,engine,harness,tools,*.txt,*.sh,*.jsonl,MANIFEST.json} $w/verif/ 2>/dev/null
cd /verif/seeded; ids=("$@"); [ ${#ids[@]} = 0 ] && ids=(*)
for i in "${ids[@]}"; do
  git -C $w/repo checkout -q -- .; git -C $w/repo apply /verif/seeded/$i/patch.diff || continue
  p=${PROP:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$i/meta.json'))['property'])")}
  s=$(date +%s)
  VERIF_REPO=$w/repo $w/verif/check.sh $p quick > $w/out 2>&1; rc=$?
  echo "$i $p rc=$rc $(( $(date +%s)-s ))s $(grep -m1 VIOLATION $w/out)"
  [ $rc = 2 ] && tail -5 $w/out
done
rm -rf "$w"
