#!/bin/bash
# tools/tryseed.sh ID [nocheck|notest]: in a private mount namespace with a patched copy of /repo, run the stable tests, the demonstration and the property's check
ID=$1; D=/tmp/try_$ID
rm -rf "$D"; mkdir -p "$D/repo" "$D/reports" "$D/evidence"
cp -a /repo/. "$D/repo"
git -C "$D/repo" apply /verif/seeded/$ID/patch.diff || exit 1
P=$(python3 -c "import json;print(json.load(open('/verif/seeded/$ID/meta.json'))['property'])")
cp -r /verif/seeded/$ID "$D/seed"
unshare -m bash -c "
mount --bind $D/repo /repo; mount --bind $D/reports /opt/vp/reports; mkdir -p /verif/evidence; mount --bind $D/evidence /verif/evidence
cd /repo
if [ '$2' != notest ]; then bash /opt/vp/test.sh $D/t.json >$D/t.log 2>&1; echo $ID tests: \$(python3 /verif/lib/stable.py $D/t.json | tr '\n' ' '); fi
timeout 300 bash $D/seed/demo.sh >$D/demo.log 2>&1; echo $ID demo exit \$?
if [ '$2' != nocheck ]; then cd /verif; timeout 900 ./check $P >$D/check.log 2>&1; echo $ID check $P exit \$?; grep -m2 VIOLATION $D/check.log; tail -1 $D/check.log; fi
"
rm -rf "$D"
