#!/usr/bin/env python3
"""Writes the table of planted bugs into DESIGN.md (between the markers)."""
import json,glob,os,re
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows=["| planted bug | reported by | what it breaks | needs |","|---|---|---|---|"]
for m in sorted(glob.glob(V+"/seeded/*/meta.json"),key=lambda m:(json.load(open(m))["property"],m)):
    j=json.load(open(m)); rows.append("| %s | %s | %s | %s |"%(os.path.basename(os.path.dirname(m)),j["property"],j["what_it_breaks"],j["needs"]))
p=V+"/DESIGN.md"; s=open(p).read()
s=re.sub(r"<!-- seeded -->.*?<!-- /seeded -->",lambda _:"<!-- seeded -->\n"+"\n".join(rows)+"\n<!-- /seeded -->",s,flags=re.S)
open(p,"w").write(s)
