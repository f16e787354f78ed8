#!/usr/bin/env python3
"""rewrites the table of the planted bugs at the end of DESIGN.md"""
import json,glob,os
d=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
mark='## Planted bugs\n'
t=open(d+'/DESIGN.md').read().split(mark)[0].rstrip()+'\n\n'
rows=[]
for p in sorted(glob.glob(d+'/seeded/*/meta.json')):
    m=json.load(open(p)); esc=lambda s:s.replace('|','\\|').replace('\n',' ')
    rows.append(f"| {os.path.basename(os.path.dirname(p))} | {m['property']} | {esc(m['needs'])} | {esc(m['what_it_breaks'])} |")
t+=mark+f"\n{len(rows)} in `seeded/`, each one caught by the quick check of its own property (`tools/seedtest.sh <id>...` confirms it: demo on the clean tree, demo with the patch, stable tests, check):\n\n| id | caught by | needs | breaks |\n|---|---|---|---|\n"+'\n'.join(rows)+'\n'
t+="""
Besides, several hundred small mutations of the sources (operators, constants, removed or reordered statements, limits at 2^8, 2^16, 2^32) were run against the checks;
the survivors which weren't equivalent led to wider generators: lone rare sizes (C06: 2^17..2^25), passes of more than 8 threads (C14, C19), thousands of failing attempts & counts around 2^16 (C16, C17),
ownership beyond 2^32 elements (C11).
"""
open(d+'/DESIGN.md','w').write(t)
