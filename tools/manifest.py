#!/usr/bin/env python3
"""Source of MANIFEST.json: claims every property that has a harness in checks.json."""
import json,os
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks=json.load(open(root+"/checks.json"))
props=[json.loads(l) for l in open(root+"/properties.jsonl")]
NA={}
if os.path.exists(root+"/tools/not_applicable.json"): NA=json.load(open(root+"/tools/not_applicable.json"))
have={}
for c in checks: have.setdefault(c["prop"],[]).append(c["harness"])
m={"version":1,"setup_cmd":"bash ./setup.sh","checks":[],"not_applicable":[]}
for p in props:
    i=p["id"]
    if i in have:
        m["checks"].append({"property":i,"quick_cmd":"bash ./check.sh %s quick"%i,"thorough_cmd":"bash ./check.sh %s thorough"%i,
          "evidence_file":"evidence/%s.json"%i,
          "technique":"bounded symbolic execution of the Go SSA of the real code, assertions decided by z3, counterexamples replayed natively",
          "level":"model_checking",
          "level_note":"Holds for every input value and every explored schedule within the bounds stated per harness (%s); trusts the engine's Go semantics and its models of encoding/json, time, timers and mutexes, which sampled native replays cross-check."%", ".join(have[i])})
    else:
        m["not_applicable"].append({"property":i,"reason":NA.get(i,"no check built yet")})
m["notes"]="No hooks in /repo: the engine reads /repo's working tree and instruments an overlay copy under /verif/.work."
json.dump(m,open(root+"/MANIFEST.json","w"),indent=1); open(root+"/MANIFEST.json","a").write("\n")
