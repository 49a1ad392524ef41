#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of claimed properties below."""
import json
TCB = " Trusts: the Go toolchain, crypto/ed25519 and golang.org/x/crypto/blake2b, and the reference model in mc/ref (written from the TIP rules; compared with the code on every explored case)."
SPACE = "bounded exhaustive enumeration (explicit-state model checking) of the real code against an executable reference model, every model verdict replayed on the implementation"
HIST = "explicit-state breadth-first search over operation histories of the real code, compared step by step with a reference model"
SCHED = "stateless model checking of the real code: all schedules up to a preemption bound under a controlled scheduler, plus exhaustive input product spaces"
N = {}
def c(p, tech, note): N[p] = (tech, note)
c("P01", SPACE, "Exhaustive within the stated alphabets of addresses, unlock kinds, signatures, times and list lengths; the set of accepted unlock lists equals the model's set, per list, on the real Execute.")
c("P02", SPACE, "All unlock lists up to length 4 (5 thorough) over the full unlock alphabet; acceptance equals the model's on each.")
c("P03", SPACE, "All combinations of boundary amounts, return owners, refund layouts and times in the stated bounds.")
c("P04", SPACE, "All combinations of token flows, foundry transitions and boundary supplies in the stated bounds.")
c("P05", SPACE, "All combinations of mana sources and sinks at boundary values in the stated bounds.")
c("P06", SPACE, "All account creations, transitions and destructions over the stated field alphabets.")
c("P07", SPACE, "All anchor creations, transitions and destructions over the stated field alphabets.")
c("P08", SPACE, "All NFT creations, transitions, burns and sender/issuer layouts over the stated alphabets.")
c("P09", SPACE, "All delegation creations, transitions, destructions and reward claims across every phase of an epoch.")
c("P10", SPACE, "All foundry layouts up to the stated count, serial, counter and position bounds; all small multisets of chain outputs.")
c("P11", SPACE, "All pairs of lock/expiry and commitment slots in a window covering every boundary, including slot extremes.")
c("P12", SPACE, "All implicit-account conversions and misuses over the stated alphabets.")
import os, re
extra = os.path.join(os.path.dirname(__file__), "claims_extra.py")
if os.path.exists(extra): exec(open(extra).read())
NA = {}
if "NOT_APPLICABLE" in globals(): NA = NOT_APPLICABLE
props = [json.loads(l) for l in open("/verif/properties.jsonl")]
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in N:
        t, n = N[i]
        m["checks"].append({"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough",
            "evidence_file": f"evidence/{i}.json", "technique": t, "level": "model_checking", "level_note": n + TCB})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "not claimed yet: its check is still being built")})
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "claimed", len(m["not_applicable"]), "not")
