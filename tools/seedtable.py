#!/usr/bin/env python3
"""Prints the table of planted bugs for DESIGN.md (between SEEDS markers) from seeded/*/meta.json and tools/caught.json."""
import json,glob,os,re
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
c=json.load(open(V+'/tools/caught.json'))
rows=['| bug | breaks | needs | caught by |','|---|---|---|---|']
for m in sorted(glob.glob(V+'/seeded/*/meta.json')):
    i=m.split('/')[-2]; d=json.load(open(m))
    rows.append(f"| {i} | {d['what_it_breaks']} | {d['needs']} | {c.get(i,'?')} |")
p=V+'/DESIGN.md'; t=open(p).read()
t=re.sub(r'<!-- SEEDS -->.*<!-- /SEEDS -->|SEEDTABLE',lambda _:'<!-- SEEDS -->\n'+'\n'.join(rows)+'\n<!-- /SEEDS -->',t,flags=re.S)
open(p,'w').write(t)
