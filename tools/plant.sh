#!/bin/bash
# plant.sh <id> [--notests]: confirms a planted bug in a scratch copy of /repo mounted over /repo in a private namespace.
ID=$1; NOT=$2
[ -d /tmp/plant/repo ] || { mkdir -p /tmp/plant; cp -a /repo /tmp/plant/repo; }
exec unshare -Urm bash -c '
ID=$0; NOT=$1
mount --bind /tmp/plant/repo /repo || exit 9
cd /repo
git checkout -q -- . ; git fetch -q 2>/dev/null
S=/tmp/plant/seed-$ID; [ -d $S ] && rm -r $S; cp -r /verif/seeded/$ID $S; mkdir -p /tmp/plant/aside-$ID; mv $S/patch.diff $S/meta.json /tmp/plant/aside-$ID/
P=/tmp/plant/aside-$ID/patch.diff
bash $S/demo.sh >/tmp/plant/$ID.clean.log 2>&1; echo "demo clean: $? (want 0)"
git apply --check $P && git apply $P || { echo "patch does not apply"; exit 9; }
bash $S/demo.sh >/tmp/plant/$ID.bug.log 2>&1; echo "demo bug: $? (want !=0, 3=build)"; tail -2 /tmp/plant/$ID.bug.log
if [ "$NOT" != --notests ]; then
 bash /opt/vp/build.sh >/tmp/plant/$ID.build.log 2>&1; echo "build: $?"
 bash /opt/vp/test.sh /tmp/plant/$ID.json 2>&1 | tail -1
 python3 -c "
import json
st=set(json.load(open(\"/opt/vp/BASELINE.json\"))[\"stable\"]); p=set(json.load(open(\"/tmp/plant/$ID.json\"))[\"passed\"]); print(\"broken stable tests:\", sorted(st-p)[:10])"
fi
git checkout -q -- .
' "$ID" "$NOT"
