#!/bin/bash
# runseed.sh ID...: apply each planted bug to /repo, run its property's quick check, undo
for id in "$@"; do
 P=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
 C=$(python3 -c "import json;print([c['quick_cmd'] for c in json.load(open('/verif/MANIFEST.json'))['checks'] if c['property']=='$P'][0])")
 git -C /repo apply /verif/seeded/$id/patch.diff || continue
 (cd /verif && timeout 900 $C > /tmp/rs.$id.log 2>&1; echo "$id $P exit $?"; grep -a VIOLATION /tmp/rs.$id.log | head -3; grep -a ERROR /tmp/rs.$id.log | head -2)
 git -C /repo checkout -q -- .
done
