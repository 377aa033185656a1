#!/usr/bin/env python3
"""Rewrites the "fixed" list of known_findings.json from /repo's fix: commits and the map below."""
import json, subprocess
M = {l.split()[0]: l.split()[1] for l in open('/verif/tools/fixed_map.txt') if l.strip()}
log = subprocess.run(['git','-C','/repo','log','--reverse','--format=%h %s'],capture_output=True,text=True).stdout.splitlines()
out=[]
for l in log:
    h, s = l.split(' ',1)
    if s.startswith('fix:') and 'verif' in subprocess.run(['git','-C','/repo','log','-1','--format=%ae',h],capture_output=True,text=True).stdout:
        assert h[:7] in M, 'no property for '+l
        out.append(f'fixed: property={M[h[:7]]} {h[:7]} {s[4:].strip()}')
p='/verif/known_findings.json'
d=json.load(open(p)); d['fixed']=out
open(p,'w').write(json.dumps(d,indent=1)+'\n')
print(len(out),'fixes')
