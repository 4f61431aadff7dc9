#!/usr/bin/env python3
"""Generates /verif/MANIFEST.json from gen/claims.json and properties.jsonl."""
import json, os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
C=json.load(open(V+"/gen/claims.json"))
checks=[];na=[]
for l in open(V+"/properties.jsonl"):
    p=json.loads(l)["id"]
    c=C.get(p)
    if c and "na" not in c:
        checks.append(dict(property=p,quick_cmd="./check %s quick"%p,thorough_cmd="./check %s thorough"%p,
          technique=c.get("technique","contract-based deductive verification of the real Go code (gover: SSA symbolic execution + z3/cvc5)"),
          level=c.get("level","proof"),level_note=c["note"]))
    else:
        na.append(dict(property=p,reason=(c or {}).get("na","contracts for this property are not written yet")))
json.dump(dict(version=1,setup_cmd="./check --build",checks=checks,not_applicable=na),open(V+"/MANIFEST.json","w"),indent=1)
print(len(checks),"claimed",len(na),"not")
