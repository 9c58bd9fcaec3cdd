#!/bin/bash
# trial.sh BUG [PROP...]: run the quick checks (default: the one of the bug's property) with the planted bug applied to /repo.
bug=$1; shift
d=/verif/seeded/$bug
props=${*:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
git -C /repo apply "$d/patch.diff" || exit 2
trap 'git -C /repo checkout -- .' EXIT
for p in $props; do
  python3 /verif/run.py "$p" quick >/tmp/trial.$bug.$p.log 2>&1
  echo "$bug $p exit=$? $(grep -m1 VIOLATION /tmp/trial.$bug.$p.log)"
done
