#!/usr/bin/env python3
"""fx.py PROP WHAT...: record a repaired defect (the last commit in /repo)."""
import json, subprocess, sys
p = '/verif/known_findings.json'
d = json.load(open(p))
h = subprocess.check_output(['git', '-C', '/repo', 'log', '-1', '--format=%h'], text=True).strip()[:7]
d['fixed'].append(f'fixed: property={sys.argv[1]} {h} {sys.argv[2]}')
json.dump(d, open(p, 'w'), indent=1)
open(p, 'a').write('\n')
