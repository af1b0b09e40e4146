#!/usr/bin/env python3
"""addfix.py PROPERTY COMMIT TEXT: append a 'fixed' entry to known_findings.json"""
import json,sys,os
f=os.path.join(os.path.dirname(__file__),'..','known_findings.json')
k=json.load(open(f))
p,c,t=sys.argv[1:4]
k.append({"property":p,"status":"fixed","commit":c,"what":f"fixed: property={p} {c} {t}"})
open(f,'w').write("[\n"+",\n".join(" "+json.dumps(x) for x in k)+"\n]\n")
