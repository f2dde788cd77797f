#!/usr/bin/env python3
"""Prints the table of section 6 of DESIGN.md from seeded/*/meta.json."""
import json,glob,os
here=os.path.dirname(os.path.abspath(__file__))
print('| planted bug | what it breaks | needs | caught by |')
print('|---|---|---|---|')
for f in sorted(glob.glob(os.path.join(here,'..','seeded','*','meta.json'))):
    d=json.load(open(f)); c=lambda s:' '.join(s.replace('|','/').split())
    print(f"| {f.split('/')[-2]} | {c(d['what_it_breaks'])} | {c(d['needs'])} | check {d['property']} |")
