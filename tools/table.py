#!/usr/bin/env python3
"""Prints the table of section 4 of DESIGN.md from the contracts and the output of 'bin/govc verify'."""
import re,os,sys,json
here=os.path.dirname(os.path.abspath(__file__))
root=os.path.join(here,'..','contracts')
ok={}
for l in open(sys.argv[1]):
    m=re.match(r'OK\s+(\S+)\s+(.*)',l)
    if m: ok[m[1]]=m[2]
props=[json.loads(l) for l in open(os.path.join(here,'..','properties.jsonl'))]
by={p['id']:{'proved':[],'helper':[],'bounded':[],'known':[]} for p in props}
for d,_,fs in os.walk(root):
    for f in sorted(fs):
        if not f.startswith('vc_'): continue
        pkg=os.path.relpath(d,root)
        dirs={}
        for l in open(os.path.join(d,f)):
            m=re.match(r'//vc:(\w+)\s*(.*)',l)
            if m: dirs.setdefault(m[1],[]).append(m[2]); continue
            m=re.match(r'func spec_(\w+)',l)
            if m and 'prop' in dirs:
                name=('' if pkg=='.' else pkg+'/')+m[1]
                for p in dirs['prop'][0].split():
                    k='known' if 'known' in dirs else 'bounded' if 'bounded' in dirs else 'helper' if 'aux' in dirs else 'proved'
                    if k in('proved','helper') and name not in ok: k='bounded'
                    by[p][k].append(m[1])
            if not l.startswith('//'): dirs={}
print('| property | proved for all inputs | helper contracts, proved | bounded stand-ins (executed only) |')
print('|---|---|---|---|')
for p in props:
    b=by[p['id']]
    bl=b['bounded']+[x+' (known finding)' for x in b['known']]
    print(f"| {p['id']} {p['title']} | {', '.join(b['proved']) or '-'} | {', '.join(b['helper']) or '-'} | {', '.join(bl) or '-'} |")
n=sum(len(b['proved'])+len(b['helper']) for b in by.values()); k=sum(len(b['bounded'])+len(b['known']) for b in by.values())
print(f'\n{n} contracts are proved, {k} are bounded.')
