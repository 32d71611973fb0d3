#!/usr/bin/env python3
"""addprop.py ID 'note' ['fixed line' ...]: adds a claimed property / fixed findings"""
import sys,json,re,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
id,note=sys.argv[1:3]
p=V+'/vcg/config_props.py'; s=open(p).read()
if note and "'%s':P("%id not in s:
    s=s.replace("}\nNOT_APPLICABLE"," %r:P(%r,note=%r),\n}\nNOT_APPLICABLE"%(id,id,note),1); open(p,'w').write(s)
p=V+'/known_findings.json'; k=json.load(open(p))
for f in sys.argv[3:]: k['fixed'].append(f)
json.dump(k,open(p,'w'),indent=1)
