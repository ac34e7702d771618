#!/usr/bin/env python3
"""records the fix: commits of /repo: fixed.py PROPERTY HASH..."""
import json,subprocess,sys
f='/verif/known_findings.json'
d=json.load(open(f))
for h in sys.argv[2:]:
    s=subprocess.run(['git','-C','/repo','log','-1','--format=%h %s',h],capture_output=True,text=True).stdout.strip()
    h,s=s.split(' ',1)
    l=f"fixed: property={sys.argv[1]} {h} {s.removeprefix('fix: ')}"
    if l not in d['fixed']: d['fixed'].append(l)
json.dump(d,open(f,'w'),indent=1)
