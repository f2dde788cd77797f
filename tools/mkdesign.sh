#!/bin/bash
# Rewrites the generated tables of DESIGN.md; argument: output of 'bin/govc verify'.
cd "$(dirname "$0")/.." && python3 - "$1" <<'P'
import subprocess,sys,re
s=open('DESIGN.md').read()
for tag,cmd in(('table',['python3','tools/table.py',sys.argv[1]]),('bugs',['python3','tools/bugs.py'])):
    t=subprocess.run(cmd,capture_output=True,text=True,check=True).stdout
    s=re.sub(f'<!-- {tag} -->.*?<!-- /{tag} -->',lambda m:f'<!-- {tag} -->\n{t}<!-- /{tag} -->',s,flags=re.S)
open('DESIGN.md','w').write(s)
P
