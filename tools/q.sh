# quick look: q.sh SECONDS PROPS...
cd /verif; b=$1; shift
for p in "$@"; do rm -f work/replays/$p-${VERIF_SEED:-1}-*; KV_BUDGET=$b timeout 200 target/debug/kv $p 2>/dev/null | cut -c1-230 | tail -4; for f in $(ls work/replays/$p-* 2>/dev/null | head -3); do python3 tools/trace.py $f ${N:-8} | cut -c1-200; done; done
