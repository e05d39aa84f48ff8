#!/bin/bash
# bugcheck.sh <seeded id> <props…>: applies the patch to /repo, runs the checks, undoes it.
ID=$1; shift
git -C /repo apply /verif/seeded/$ID/patch.diff || exit 9
for p in "$@"; do
  timeout 900 bash /verif/check.sh $p >/tmp/bugcheck.out 2>/tmp/bugcheck.err; echo "$ID $p rc=$?"; grep -m2 -A1 VIOLATION /tmp/bugcheck.out | cut -c1-300
done
git -C /repo checkout -q -- .
