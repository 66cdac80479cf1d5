#!/bin/bash
# trybug.sh ID [PROPERTY]: runs the property's check against a planted bug and undoes it.
d=/verif/seeded/$1
p=${2:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
git -C /repo apply $d/patch.diff || exit 2
cd /verif; VERIF_SEED=${SEED:-1} timeout 900 python3 check.py $p | grep -E "VIOLATION|cases" | cut -c1-200
git -C /repo checkout -- .
