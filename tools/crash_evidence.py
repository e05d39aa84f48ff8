import json,sys,os
p,rc=sys.argv[1],int(sys.argv[2])
json.dump({"property":p,"tier":os.environ.get("VERIF_TIER","quick"),"seed":int(os.environ.get("VERIF_SEED","1")),"level":"exploration",
 "coverage":{"evaluations":1,"distinct_nontrivial":0,"rule":"the run ended in a crash of the process","samples":[{"exit_code":rc}]},
 "wall_s":0,"violations":1}, open(f"/verif/evidence/{p}.json","w"), indent=1)
