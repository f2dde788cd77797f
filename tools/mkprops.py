#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single place the statements are kept)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append(dict(id=id,title=title,statement=statement,quantifier={"over":over,"text":text},why_tests_cant=why,anchors=a))
exec(open(os.path.join(os.path.dirname(__file__),"props.py")).read())
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for q in P:
        assert len(q["title"])<=80,q["id"]
        f.write(json.dumps(q)+"\n")
print(len(P),"properties")
