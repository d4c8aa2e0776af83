#!/bin/bash
# Developer tool: run each planted bug's property check on a scratch clone; records the firing monitors in tools/caught.json
cd "$(dirname "$0")/.."
for id in ${@:-$(ls seeded)}; do
  d=/tmp/pl/det_$id; rm -rf "/tmp/pl/det_$id"; mkdir -p /tmp/pl; git clone -q /repo "$d"; git -C "$d" apply "$PWD/seeded/$id/patch.diff" || { echo "$id APPLY FAILED"; continue; }
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  VERIF_REPO=$d bash run.sh $p --tier quick > /tmp/pl/det.out 2>&1; rc=$?
  s=$(grep -o 'summary:.*' /tmp/pl/det.out | cut -c10-170)
  echo "$id $p exit=$rc $s"
  python3 - "$id" "$rc" "$s" <<'P'
import json,sys,os
f="tools/caught.json"; d=json.load(open(f)) if os.path.exists(f) else {}
d[sys.argv[1]] = ("`"+sys.argv[3].strip(" {")[:110].replace("|","/")+"`") if sys.argv[2]=="1" else "**missed**"
json.dump(d,open(f,"w"),indent=1,sort_keys=True)
P
  rm -rf "/tmp/pl/det_$id"
done
