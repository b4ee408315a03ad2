#!/usr/bin/env python3
# Writes MANIFEST.json from contracts/checks.json and properties.jsonl.
import json,os
here=os.path.dirname(os.path.abspath(__file__)); root=os.path.dirname(here)
checks=json.load(open(root+"/contracts/checks.json"))
props=[json.loads(l) for l in open(root+"/properties.jsonl")]
na=json.load(open(root+"/contracts/not_applicable.json"))
m={"version":1,"setup_cmd":"./setup.sh","hooks":{"guard":"none (no hooks were added to /repo)","enable":"the search program is compiled into the tree with go build -overlay; nothing in /repo changes","source_commits":[]},
   "checks":[],"not_applicable":[]}
for p in props:
    i=p["id"]
    if i in checks:
        c=checks[i]
        note=c.get("note","")
        base="Verification conditions of every function under contract are generated from /repo's SSA on each run and discharged by Verus/Z3, for all inputs and iterations; partial correctness."
        m["checks"].append({"property":i,"quick_cmd":"./check.sh "+i,"thorough_cmd":"./check.sh "+i+" -tier thorough","technique":c.get("technique","contract-based deductive verification (contracts on the Go functions, VC generation from go/ssa, Verus/Z3)"),"level":c["level"],"level_note":(base+" "+note+(" Bounded stand-ins, not counted as proof: "+"; ".join(c["bounded"])+"." if c.get("bounded") else "")+(" Assumes: "+"; ".join(c["assumptions"])+"." if c.get("assumptions") else "")).strip()})
    else:
        m["not_applicable"].append({"property":i,"reason":na.get(i,"not claimed yet: its contracts are still being written")})
json.dump(m,open(root+"/MANIFEST.json","w"),indent=1); open(root+"/MANIFEST.json","a").write("\n")
