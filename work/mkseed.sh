#!/bin/bash
# mkseed.sh ID PROP "needs" "breaks" DEMO.py [sil]: take the edit standing in /tmp/wt as the patch
set -e
ID=$1; D=/verif/seeded/$ID; mkdir -p $D
git -C /tmp/wt diff > $D/patch.diff
cp $5 $D/demo.py
if [ "$6" = sil ]; then cp /verif/work/sildemo/*.py $D/; cp /verif/lib/{fakejvm,silparse,den,pysem,prelude,witness}.py $D/; fi
if [ "$6" = tr ]; then cp /verif/work/trdemo/*.py $D/; cp /verif/lib/{fakejvm,wfnames,silparse}.py $D/; fi
if [ "$6" = run ]; then cp /verif/lib/{fakejvm,silparse,den,pysem,prelude,witness,px,vrun,pyref,diff,rundiff,programs,report,wfnames,typedom}.py $D/; cp /verif/work/rundemo/*.py $D/; fi
cat > $D/demo.sh <<'X'
#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd)
PYTHONDONTWRITEBYTECODE=1 exec /opt/venv/bin/python "$D/demo.py"
X
chmod +x $D/demo.sh
python3 - "$ID" "$2" "$3" "$4" <<'P'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open('/verif/seeded/%s/meta.json'%sys.argv[1],'w'),indent=1)
P
(cd /repo && bash $D/demo.sh >/tmp/o1 2>&1) && echo "clean ok" || { echo "CLEAN FAILS"; tail -5 /tmp/o1; }
(cd /tmp/wt && bash $D/demo.sh >/tmp/o2 2>&1) && { echo "MUTANT NOT SHOWN"; tail -3 /tmp/o2; } || { echo "mutant shown:"; tail -2 /tmp/o2; }
git -C /tmp/wt checkout -q -- .
