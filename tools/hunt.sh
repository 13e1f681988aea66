#!/bin/bash
# hunt.sh [-p PROP] ID...: runs the quick check of a planted bug's property (or PROP) against a copy of /repo with the bug;
# the outcome is recorded in tools/catches.tsv (id, check, 1 = caught, seconds)
prop=; [ "$1" = -p ] && { prop=$2; shift 2; }
cd /verif
for id in "$@"; do
  p=${prop:-$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")}
  w=/tmp/hunt.$id; rm -rf "$w"; cp -a /repo "$w"
  (cd "$w" && git apply "/verif/seeded/$id/patch.diff") || { echo "$id does not apply"; continue; }
  s=$(date +%s)
  DST_REPO=$w DST_OUT=/tmp/hunt.out.$id timeout 880 /opt/venv/bin/python dst/main.py check $p --tier quick >/tmp/hunt.log.$id 2>&1
  rc=$?; t=$(( $(date +%s) - s ))
  echo "$id $p rc=$rc ${t}s $(grep -m1 ' of C\|VIOLATION' /tmp/hunt.log.$id | cut -c1-150)"
  if grep -q "^VIOLATION property=$p " /tmp/hunt.log.$id; then c=1; else c=0; fi
  sed -i "/^$id\t$p\t/d" tools/catches.tsv; printf '%s\t%s\t%s\t%s\n' "$id" "$p" $c $t >>tools/catches.tsv
  rm -rf "$w" /tmp/hunt.out.$id
done
