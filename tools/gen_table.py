#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os, glob
os.chdir(os.path.join(os.path.dirname(__file__), '..'))
s=open('DESIGN.md').read()
head='| bug | needs | breaks | |\n|---|---|---|---|\n'
i=s.index(head)+len(head)
j=i
while s[j:j+1]=='|': j=s.index('\n',j)+1
rows=''
for d in sorted(glob.glob('seeded/*/meta.json')):
    m=json.load(open(d))
    rows+=f"| {d.split('/')[1]} | {m['needs']} | {m['what_it_breaks']} | caught by {m['property']} |\n".replace('\\|','|')
open('DESIGN.md','w').write(s[:i]+rows+s[j:])
