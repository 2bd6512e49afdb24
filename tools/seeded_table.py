#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json. What catches each one was seen in a run of
tools/mkbug.sh; all are caught by the check of the property they break unless noted here."""
import json,glob,os,re
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
note=json.load(open(V+'/tools/seeded_notes.json'))
rows=['| bug | property | needs | breaks | caught by |','|---|---|---|---|---|']
for d in sorted(glob.glob(V+'/seeded/B*')):
    b=os.path.basename(d); m=json.load(open(d+'/meta.json'))
    rows.append(f"| {b} | {m['property']} | {m['needs']} | {m['what_it_breaks']} | {note.get(b, m['property'])} |")
s=open(V+'/DESIGN.md').read()
t='<!-- seeded table -->'
s=s.replace('SEEDED_TABLE',t)
i=s.index(t)
open(V+'/DESIGN.md','w').write(s[:i]+t+'\n'+'\n'.join(rows)+'\n')
