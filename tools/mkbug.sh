#!/bin/bash
# mkbug.sh <id> [deps…]: (re)creates seeded/<id>/{patch.diff,demo.sh} from the edits in the scratch copy /tmp/plant/repo
ID=$1; shift
D=/verif/seeded/$ID; mkdir -p $D
git -C /tmp/plant/repo diff > $D/patch.diff
git -C /tmp/plant/repo checkout -q -- .
DEPS=$(printf '%s\\n' "$@")
sed "s|@DEPS@|$DEPS|" /verif/tools/demo_template.sh > $D/demo.sh
cat $D/patch.diff | grep '^[+-]' | head -40
