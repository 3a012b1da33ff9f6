#!/bin/bash
# seedcheck.sh ID [PROP]: run the check of the bug's property with the bug applied to /repo, then undo it
id=$1; S=/verif/seeded/$id
p=${2:-$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")}
git -C /repo apply $S/patch.diff || exit 9
t=$(date +%s)
(cd /verif && ./check.sh $p quick) > /tmp/seed/$id.$p.log 2>&1; rc=$?
git -C /repo checkout -- .
echo "$id $p rc=$rc $(($(date +%s)-t))s $(grep -E 'VIOLATION|^OK' /tmp/seed/$id.$p.log)"
