# writes MANIFEST.json for the properties that have checks
import json,sys
ids=[json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
have=sys.argv[1].split(',') if len(sys.argv)>1 else ids
have=ids if have==['all'] else have
NOTE={
}
default="The functions of the current tree that the harness reaches are executed symbolically from their SSA form: inputs are solver variables, branch feasibility and every assertion are decided by z3 for all values on a path, and all interleavings up to equivalence of synchronization orders are explored (dynamic partial order reduction with vector-clock race detection). Exhaustive within the bounds listed in the evidence file; violations are replayed against the real code. Trusted: go/ssa, the engine (cross-checked by native replays of sampled paths), z3, and models of the used standard library functions."
import subprocess
m={"version":1,"setup_cmd":"bash ./setup.sh","checks":[],"not_applicable":[],
 "notes":"Checks are bash ./check.sh ID TIER; see DESIGN.md. No hooks in /repo: harnesses and instrumented replay builds live in scratch copies."}
for i in ids:
    if i in have:
        m["checks"].append({"property":i,"quick_cmd":"bash ./check.sh %s quick"%i,"thorough_cmd":"bash ./check.sh %s thorough"%i,
          "evidence_file":"evidence/%s.json"%i,"technique":"bounded symbolic execution of the Go SSA with z3, over all inputs and schedules within bounds","level":"model_checking","level_note":NOTE.get(i,default)})
    else:
        m["not_applicable"].append({"property":i,"reason":"check not built yet"})
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
