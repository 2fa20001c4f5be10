#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the list of implemented checks (`cmv list`)."""
import json, subprocess, os
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(root+'/properties.jsonl')]
have=set(subprocess.check_output([root+'/target/debug/cmv','list'],text=True).split())
T=dict(
 E="generated macro tables and token sequences, compared with a reference preprocessor (differential / metamorphic property-based testing), plus exhaustive small families",
 L="generated token spellings and values, compared with an independent decoder (property-based testing)",
 C="generated C macros, the produced Rust is interpreted / compiled and compared with a C evaluation (differential property-based testing)",
)
OVER=json.load(open(root+'/tools/techniques.json')) if os.path.exists(root+'/tools/techniques.json') else {}
NA=OVER.get('not_applicable',{})
checks=[];na=[]
for p in props:
    i=p['id']
    if i in have:
        o=OVER.get(i,{})
        checks.append(dict(property=i,quick_cmd=f"bash checks/run.sh {i} quick",thorough_cmd=f"bash checks/run.sh {i} thorough",
          technique=o.get('technique',T[i[0]]),level="exploration",
          level_note=o.get('note',"Random and structured search with shrinking: shows the absence of violations on the generated cases only. Trusts the reference model in harness/src (see DESIGN.md).")))
    else:
        na.append(dict(property=i,reason=NA.get(i,"no check yet")))
json.dump(dict(version=1,setup_cmd="bash checks/build.sh",checks=checks,not_applicable=na,
  notes="No hooks in /repo: the checks use the public API only. Known findings and repaired defects: known_findings.txt."),open(root+'/MANIFEST.json','w'),indent=1)
