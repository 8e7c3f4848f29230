import json,sys
sys.path.insert(0,'/verif')
from plan import PLAN
props=[json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
NA={}
checks=[]
na=[]
for i in props:
    if i in PLAN:
        checks.append(dict(property=i,quick_cmd=f"python3 nv.py check {i} quick",thorough_cmd=f"python3 nv.py check {i} thorough",
          technique=PLAN[i].get("technique","symbolic execution of the crate's LLVM IR with an SMT solver (z3), bounded"),level="model_checking",
          level_note="Every path of the listed harnesses over the real crate, for all values of the symbolic inputs, within these bounds: "+PLAN[i]["bounds"]+". Assumes: "+"; ".join(PLAN[i].get("assumptions",[]))+". Trusts rustc's LLVM IR, the executor in /verif/symex (sampled paths are re-run natively, counterexamples are replayed natively before being reported) and z3; single-threaded interleavings only."))
    else:
        na.append(dict(property=i,reason=NA.get(i,"no check yet")))
m=dict(version=1,setup_cmd="python3 nv.py setup",checks=checks,not_applicable=na,
 notes="No hooks in /repo: the harnesses use the public API only (path dependency on /repo/crates/cfg-noodle). Exit 2 = no verdict (build failure, time limit, vacuity).")
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
