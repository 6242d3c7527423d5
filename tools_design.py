#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json,glob,os,re
rows=[]
for d in sorted(glob.glob('seeded/*/meta.json')):
    m=json.load(open(d)); i=os.path.basename(os.path.dirname(d))
    rows.append(f"| {i} | {m['property']} | {m['needs']} | {m['what_it_breaks']} | {m['property']} quick |")
s=open('DESIGN.md').read()
s=re.sub(r'(\|---\|---\|---\|---\|---\|\n)(\|.*\n)*',lambda m:m.group(1)+"\n".join(rows)+"\n",s,count=1)
open('DESIGN.md','w').write(s); print(len(rows))
