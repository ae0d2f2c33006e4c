#!/bin/bash
# development: which checks catch a planted bug?  tools/hunt.sh ID [PID...]   (applies the patch to /repo, undoes it)
cd "$(dirname "$0")/.."
id=$1; shift
pids=${*:-$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")}
git -C /repo apply "$PWD/seeded/$id/patch.diff" || exit 2
for p in $pids; do
  s=$(date +%s); out=$(timeout 900 bin/check $p 2>/dev/null); rc=$?
  echo "$id $p rc=$rc $(( $(date +%s)-s ))s $(echo "$out" | grep -m1 VIOLATION)"
done
git -C /repo checkout -- .
