#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept as code so that the long texts stay reviewable).
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None):
    a={"files":files,"mechanism":mech}
    if state: a["state"]=[{"name":n,"meaning":m} for n,m in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
exec(open('/verif/tools/props_data.py').read())
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
import sys
try:
    import jsonschema
    s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
    for x in P: jsonschema.validate(x,s)
    print(len(P),"properties valid")
except ImportError: print(len(P))
