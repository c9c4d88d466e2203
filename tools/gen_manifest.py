#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json for the checks that exist."""
import json, os
V=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..")
props=[json.loads(l) for l in open(V+"/properties.jsonl")]
SEQ="stateless explicit enumeration of all operation sequences, inputs and environment answers up to a bound, on the real code, against a reference model"
CON="explicit-state exploration of all thread interleavings of the real code under a controlled scheduler (replay from the start, visited states matched by hash)"
PRG="exhaustive enumeration of event histories and faults on the real program, one process per execution, against a reference state machine"
from importlib.machinery import SourceFileLoader
TECH={}
for p in props:
    i=int(p["id"][1:])
    TECH[p["id"]]=CON if i in (8,12,13,14,15,16,17,18,19) else PRG if i>=20 else SEQ
NOTE={}
exec(open(os.path.join(V,"tools","notes.py")).read())
checks=[];na=[]
for p in props:
    i=p["id"]
    if os.path.exists("%s/checks/%s.cpp"%(V,i.lower())):
        checks.append(dict(property=i,quick_cmd="./check %s quick"%i,thorough_cmd="./check %s thorough"%i,
            evidence_file="evidence/%s.json"%i,technique="model checking: "+TECH[i],level="model_checking",level_note=NOTE[i]))
    else: na.append(dict(property=i,reason="check not built yet"))
m=dict(version=1,setup_cmd="python3 tools/setup.py",checks=checks,not_applicable=na,
  notes="No hooks in /repo: checks compile /repo's sources as they are and rename libc calls in the object files (objcopy).")
json.dump(m,open(V+"/MANIFEST.json","w"),indent=1)
print(len(checks),"checks",len(na),"not yet")
