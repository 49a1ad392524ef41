#!/usr/bin/env python3
"""claim.py PROP KIND NOTE DESIGN: claim a property (KIND: SPACE, HIST, SCHED)."""
import json, sys
pid, kind, note, design = sys.argv[1:]
open('/verif/tools/claims_extra.py', 'a').write(f'c("{pid}", {kind}, {json.dumps(note)})\n')
p = '/verif/tools/design.json'
d = json.load(open(p)); d[pid] = design
json.dump(d, open(p, 'w'), indent=1)
