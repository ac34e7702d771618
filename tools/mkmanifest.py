#!/usr/bin/env python3
"""MANIFEST.json from harness/packages.json and properties.jsonl"""
import json,os
os.chdir(os.path.dirname(os.path.abspath(__file__))+'/..')
t=json.load(open('harness/packages.json'))
ids=[json.loads(l)['id'] for l in open('properties.jsonl')]
reasons=json.load(open('tools/not_applicable.json')) if os.path.exists('tools/not_applicable.json') else {}
checks=[];na=[]
for i in ids:
    p=t['properties'].get(i)
    if not p:
        na.append({"property":i,"reason":reasons.get(i,"no check built yet")}); continue
    checks.append({"property":i,"quick_cmd":f"./check.sh {i} quick","thorough_cmd":f"./check.sh {i} thorough",
      "technique":"symbolic execution of the Go SSA of the real functions, every path's assertions decided by an SMT solver (z3, cvc5), models replayed natively",
      "level":"model_checking",
      "level_note":p.get("note","bounded: holds for all values within the stated shapes and sizes; "+"; ".join(p.get("bounds",[])))})
json.dump({"version":1,"setup_cmd":"./setup.sh","checks":checks,"not_applicable":na},open('MANIFEST.json','w'),indent=1)
