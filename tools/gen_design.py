#!/usr/bin/env python3
"""Writes /verif/DESIGN.md from tools/DESIGN.head.md, tools/design.json (per property) and seeded/*/meta.json + tools/caught.json."""
import json, os
H="/verif/tools/"
head=open(H+"DESIGN.head.md").read()
D=json.load(open(H+"design.json"))
props=[json.loads(l) for l in open("/verif/properties.jsonl")]
m=json.load(open("/verif/MANIFEST.json"))
na={x["property"]:x["reason"] for x in m["not_applicable"]}
out=[]
for p in props:
    i=p["id"]; out.append(f"### {i} {p['title']}\n")
    if i in na: out.append(f"Not claimed: {na[i]}\n")
    out.append(D.get(i,"(design follows with the check)")+"\n")
caught=json.load(open(H+"caught.json")) if os.path.exists(H+"caught.json") else {}
b=["| bug | property | needs | caught by |","|---|---|---|---|"]
for s in sorted(os.listdir("/verif/seeded")):
    f=f"/verif/seeded/{s}/meta.json"
    if os.path.exists(f):
        j=json.load(open(f)); b.append(f"| {s} | {j['property']} | {j['needs']} | {caught.get(s,'not run')} |")
fd=open(H+"findings.md").read() if os.path.exists(H+"findings.md") else ""
K=json.load(open("/verif/known_findings.json"))
fx="\n".join("* "+x for x in K["fixed"])
kn="\n".join(f"* known finding, {k['property']}: {k['what']}" for k in K["known"])
head=head.replace("@FIXED@",fx+("\n\nRecorded, not repaired:\n\n"+kn if kn else ""))
open("/verif/DESIGN.md","w").write(head.replace("@PROPS@","\n".join(out)).replace("@BUGS@","\n".join(b)).replace("@FINDINGS@",fd))
