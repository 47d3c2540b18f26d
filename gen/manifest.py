"""Writes MANIFEST.json from properties.jsonl and the checks that exist."""
import json, os
V="/verif"
props=[json.loads(l) for l in open(V+"/properties.jsonl")]
TECH={
 "default":"explicit-state exploration of the real code: every input, configuration and answer of the random source within bounds, compared with a reference model on every execution",
 "C13":"stateless model checking of the real code under a controlled scheduler (preemption bounded), linearizability against a sequential model",
 "C14":"stateless model checking of growforest under a controlled scheduler (preemption bounded), outputs compared with a reference model",
 "C24":"stateless model checking of leafcount under a controlled scheduler (preemption bounded), outputs compared with a reference model",
 "C28":"explicit-state exploration of growforest: every combination of up to three options, each run followed by growing every tree again with independently made settings and comparing",
 "C29":"explicit-state exploration of pairs of runs of growforest on equivalent data (self composition), compared with each other",
 "C30":"exhaustive enumeration of faults and crash points on the real code: every read, write, cut of the input and torn end, once or for good",
}
NOTE={}
exec(open(V+"/gen/notes.py").read())
checks=[];na=[]
for p in props:
    i=p["id"]
    if os.path.exists(f"{V}/mc/props/{i.lower()}/main.go"):
        checks.append(dict(property=i,quick_cmd=f"./check {i}",thorough_cmd=f"VERIF_TIER=thorough ./check {i}",evidence_file=f"evidence/{i}.json",
            technique=TECH.get(i,TECH["default"]),level="model_checking",level_note=NOTE.get(i,NOTE["default"])))
    else:
        na.append(dict(property=i,reason=NA.get(i,"no check has been built for it yet")))
m=dict(version=1,setup_cmd="true",checks=checks,not_applicable=na,
  notes="No hooks in /repo: instrumentation (random source, log.Fatal, cooperative scheduler) is applied to a scratch copy and through -overlay when a check is built.")
import jsonschema
jsonschema.validate(m,json.load(open("/root/.vp/MANIFEST.schema.json")))
json.dump(m,open(V+"/MANIFEST.json","w"),indent=1)
print(len(checks),"checks",len(na),"not claimed")
