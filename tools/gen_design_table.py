#!/usr/bin/env python3
"""Fills the table of planted bugs between the markers in DESIGN.md from seeded/*/meta.json and tools/seeds/results.txt (id check result)."""
import json,glob,os,re
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res={}
for l in open(root+"/tools/seeds/results.txt"):
    p=l.split(None,1)
    if len(p)==2: res[p[0]]=p[1].strip()
t="<!-- seeds -->\n| id | property | needs | result |\n|---|---|---|---|\n"
for m in sorted(glob.glob(root+"/seeded/*/meta.json")):
    d=json.load(open(m)); i=os.path.basename(os.path.dirname(m))
    t+="| %s | %s | %s | %s |\n"%(i,d["property"],d["needs"],res.get(i,"?"))
t+="<!-- /seeds -->"
s=open(root+"/DESIGN.md").read()
s=s.replace("@@SEEDS@@",t) if "@@SEEDS@@" in s else re.sub(r"<!-- seeds -->.*<!-- /seeds -->",lambda m:t,s,flags=re.S)
open(root+"/DESIGN.md","w").write(s)
