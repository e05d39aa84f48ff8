#!/bin/bash
# check.sh <PROPERTY>: rebuilds the harness from /repo's working tree and decides one property.
# Exit 0: held on everything explored; 1: VIOLATION line printed; anything else: no verdict.
ID="$1"
cd /verif || exit 2
. /verif/tools/env.sh
mkdir -p /verif/work/replays /verif/evidence
if [ "$ID" = C14 ]; then
  exec python3 /verif/tools/c14.py
fi
fresh_sources /verif/target
if ! (cd /verif/harness && cargo build --offline --quiet --bin kv) >/verif/work/build.log 2>&1; then
  tail -40 /verif/work/build.log >&2
  echo "$ID: the harness does not build against /repo" >&2
  exit 2
fi
mark_sources /verif/target
ERR=/verif/work/$ID.stderr
/verif/target/debug/kv "$ID" 2>"$ERR"
rc=$?
grep -v "Dropping timeout as target\|Could not send\|Magic check fail" "$ERR" | tail -40 >&2
if [ "$rc" -ge 128 ] && [ "$rc" -ne 137 ] && [ "$rc" -ne 143 ]; then
  # the code under test brought the process down (no workload uses unsafe code)
  R=/verif/work/replays/$ID-${VERIF_SEED:-1}-crash.json
  printf '{"property":"%s","sig":"process-crash","exit_code":%d,"replay":"VERIF_SEED=%s VERIF_TIER=%s bash /verif/check.sh %s"}\n' \
    "$ID" "$rc" "${VERIF_SEED:-1}" "${VERIF_TIER:-quick}" "$ID" >"$R"
  echo "VIOLATION property=$ID replay=$R"
  echo "  process-crash: the process running the workload was killed by signal $((rc-128))"
  python3 /verif/tools/crash_evidence.py "$ID" "$rc"
  exit 1
fi
exit $rc
