#!/bin/bash
# Builds everything the checks need, offline, from the committed files and /repo's working tree.
cd /verif || exit 2
. /verif/tools/env.sh
mkdir -p /verif/work/replays /verif/evidence
(cd /verif/harness && cargo build --offline --bin kv) || exit 1
mark_sources /verif/target
python3 /verif/tools/c14.py build || exit 1
exit 0
