#!/usr/bin/env python3
# Writes MANIFEST.json from properties.jsonl and the harnesses present.
import json,glob,re
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
have=set()
for f in glob.glob('/verif/harness/h/*.go'):
    have|=set(re.findall(r'^func H_(C\d+)_',open(f).read(),re.M))
NA={'C29':"Timing and memory-access behaviour is not visible in the Go SSA semantics the solver reasons about; an encoding would need an instruction-level leakage model of compiled code and of assembly in the standard library, which is out of reach here."}
checks=[];na=[]
for p in props:
    i=p['id']
    if i in NA: na.append({"property":i,"reason":NA[i]}); continue
    if i not in have: na.append({"property":i,"reason":"no check built yet"}); continue
    checks.append({"property":i,"quick_cmd":f"bash check.sh {i} quick","thorough_cmd":f"bash check.sh {i} thorough",
     "technique":"bounded symbolic execution of the Go SSA of /repo, z3 deciding every branch and assertion, counterexamples replayed natively",
     "level":"model_checking",
     "level_note":"Holds for every value of the symbolic inputs and every schedule within the bounds stated in the evidence and DESIGN.md; cryptographic primitives are ideal functions; the standard library's crypto and the protobuf runtime are modelled, and sampled paths are validated natively against the real code."})
json.dump({"version":1,"setup_cmd":"bash setup.sh","checks":checks,"not_applicable":na,
 "notes":"No hooks in /repo are needed. known_findings.json lists defects found (and repaired)."},open('/verif/MANIFEST.json','w'),indent=1)
open('/verif/MANIFEST.json','a').write('\n')
