#!/usr/bin/env python3
"""brings the run counts and the table of planted bugs in DESIGN.md up to date"""
import json,os,re
V='/verif/'
s=open(V+'DESIGN.md').read()
t=open(V+'sim/src/props.rs').read()
for i,q in re.findall(r'id: "(C\d\d)".*?quick: (\d+)',t):
    s=re.sub(r'(\*\*%s [^*]*\*\*) (?:Quick: )?[\d,]+ runs'%i,lambda m:m.group(1)+f' {int(q):,} runs',s)
rows=''
for b in sorted(os.listdir(V+'seeded')):
    m=json.load(open(f'{V}seeded/{b}/meta.json'))
    rows+=f"| {b} | {m['needs']} | {m['what_it_breaks']} |\n"
s=re.sub(r'(\| bug \| needs \| breaks \|\n\|---\|---\|---\|\n)(?:\|.*\n)*',lambda m:m.group(1)+rows,s)
open(V+'DESIGN.md','w').write(s)
