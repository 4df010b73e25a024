#!/usr/bin/env python3
import json,re
NA={
"N01":"needs equality of plaintexts across two protocol runs over all contents and message orders: a relation between runtime byte values, not between program constructs; its structural parts (framing, key agreement symmetry, key use) are decided under M03-M06 and M11",
"N02":"distribution of delays and server choices is a statement about random runtime values; no static argument in reach bounds it",
"N03":"depends on the isolation SQLite gives concurrent processes, which is outside the source; the per-process lock discipline is decided under G01",
"N04":"an invariant over the content of a mutable buffer after unbounded edit sequences (heap shape and runtime indexes); would need symbolic execution or testing",
}
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
tech=json.load(open('/verif/tools/technique.json'))
checks=[]
for p in props:
    i=p['id']
    if i in NA: continue
    checks.append({"property":i,"quick_cmd":"./check.sh %s quick"%i,"thorough_cmd":"./check.sh %s thorough"%i,
      "technique":tech.get(i,tech["default"]),"level":"other",
      "level_note":"Static decision over every path of the analysed functions' SSA form in the current tree; sound up to the modelling assumptions listed in the evidence (no reflection, opaque library callees, aliasing of addresses passed to opaque callees, error values from opaque callees taken as truthful). Not a proof of the cryptography or of the libraries."})
m={"version":1,"setup_cmd":"./setup.sh","checks":checks,
 "not_applicable":[{"property":k,"reason":v} for k,v in NA.items()],
 "notes":"All checks are static analyses of /repo's current source by /verif/checker (Go, go/ssa). No hooks in /repo. Findings and repairs: known_findings.txt, DESIGN.md."}
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
print(len(checks))
