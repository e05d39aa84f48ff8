#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table of claimed checks below."""
import json
V="/verif/"
ids=[json.loads(l)["id"] for l in open(V+"properties.jsonl")]
ENG="online monitor: generated component programs on the real code under a controlled scheduler and virtual time, checked step by step against a reference model"
EN=("Every execution the generator reaches within the time limit is compared with a reference model after each handler; "
    "nothing is claimed beyond the executions observed. Trusts the harness model, the manual timer crate and the compiler.")
C={
 "C01":(ENG+"; plus multi-threaded stress with per-sender sequence monitors",EN),
 "C02":(ENG+"; plus multi-threaded stress with per-trigger sequence monitors",EN),
 "C03":(ENG+"; plus multi-threaded overlap detectors",EN),
 "C04":(ENG+"; plus multi-threaded quiescence monitors",EN),
 "C05":(ENG,EN),
 "C06":(ENG,EN),
 "C07":(ENG,EN),
 "C08":(ENG,EN),
 "C11":(ENG,EN),
 "C13":(ENG+"; drop-counting tokens",EN),
}
NA={}
exec(open(V+"tools/claims.py").read())
m={"version":1,"setup_cmd":"bash setup.sh","hooks":{"guard":"cfg kompact_verif","enable":"RUSTFLAGS='--cfg kompact_verif' (tools/env.sh)","source_commits":["299e770e0b9a03d4d2e28f5d608b658fddc240c1"]},"checks":[],"not_applicable":[]}
for i in ids:
    if i in C:
        t,n=C[i]
        m["checks"].append({"property":i,"quick_cmd":f"bash check.sh {i}","thorough_cmd":f"bash check.sh {i}","evidence_file":f"evidence/{i}.json","technique":t,"level":"exploration","level_note":n})
    else:
        m["not_applicable"].append({"property":i,"reason":NA.get(i,"check under construction")})
json.dump(m,open(V+"MANIFEST.json","w"),indent=1)
print(len(m["checks"]),"checks")
