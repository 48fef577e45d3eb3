#!/bin/bash
# seedcheck.sh ID [PROP...]: applies a planted change to /repo, runs the checks, undoes it
d=/verif/seeded/$1; shift
[ -z "$(git -C /repo status --porcelain)" ] || { echo repo not clean; exit 2; }
P=${@:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
git -C /repo apply $d/patch.diff || exit 2
for p in $P; do (cd /verif; /opt/venv/bin/python check.py $p 2>&1 | grep -E "VIOLATION|obligations|failed obl" | cut -c1-300); done
git -C /repo checkout -- .
