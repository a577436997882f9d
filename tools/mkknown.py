# known_findings.json; fixed entries document repairs and suppress nothing
import json,subprocess
def commit(subj):
    o=subprocess.run(['git','-C','/repo','log','--format=%h %s'],capture_output=True,text=True).stdout
    for l in o.splitlines():
        if subj in l: return l.split()[0]
    raise SystemExit('no commit '+subj)
F=[]
def fixed(prop,subj,what):
    c=commit(subj)
    F.append({"property":prop,"status":"fixed","commit":c,"what":what,"line":"fixed: property=%s %s %s"%(prop,c,what)})
fixed("C01","compare mid with low","Range functions near MaxInt: low + batchSize*half overflowed (e.g. parallel.Range(MaxInt-9, MaxInt, 8, f) called f(MaxInt-1, MinInt) and f(MinInt, MaxInt))")
fixed("C02","panic for every negative batch count","ComputeNofBatches accepted n < 0 for empty ranges, and high < low when high-low overflows (e.g. Range(0, 0, -1, f), Range(MaxInt, MinInt, 1, f))")
fixed("C14","SpeculativeRange stops when","sync.Map.SpeculativeRange treated true as the request to stop: it returned early when f always returned true, and waited when f returned false")
exec(open('/verif/tools/known_more.py').read())
json.dump({"findings":F},open('/verif/known_findings.json','w'),indent=1)
