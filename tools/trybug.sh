#!/bin/bash
# trybug.sh ID [tier]: apply a planted bug, run the check of its property, undo
d=/verif/seeded/$1
p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
git -C /repo apply $d/patch.diff || exit 9
timeout 900 /opt/venv/bin/python /verif/check.py ${2:-$p} quick > /tmp/trybug.log 2>&1
rc=$?
git -C /repo checkout -- .
echo "$1 $p rc=$rc $(grep -c '^VIOLATION' /tmp/trybug.log) violation lines; $(tail -1 /tmp/trybug.log | cut -c1-200)"
