"""writes MANIFEST.json from vcg/config_props.py and properties.jsonl"""
import json,os,sys
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0,os.path.join(V,'vcg'))
import config_props as C
ids=[json.loads(l)['id'] for l in open(os.path.join(V,'properties.jsonl'))]
m={'version':1,'setup_cmd':'./setup.sh','checks':[],'not_applicable':[]}
for i in ids:
    if i in C.PROPS:
        p=C.PROPS[i]
        ob=p.get('only_bounded')
        m['checks'].append({'property':i,'quick_cmd':'VERIF_TIER=quick python3-vt check.py '+i,'thorough_cmd':'VERIF_TIER=thorough python3-vt check.py '+i,'evidence_file':'evidence/%s.json'%i,
          'technique':'contract-based deductive verification of the LLVM IR generated from the real source (own VC generator, z3); executable contracts for replay','level':p['level'],
          'level_note':p['note']+('. Bounded only (not counted as proved): '+'; '.join(ob) if ob else '')+'. Assumes: mathematical integers, exact reals, trusted VC generator/clang/z3, assumed contracts on external functions (listed in the evidence).'})
    else: m['not_applicable'].append({'property':i,'reason':C.NOT_APPLICABLE.get(i,'not claimed yet: contracts under construction')})
m['notes']='DESIGN.md describes the method, the assumptions and which checks catch which planted changes. known_findings.json lists recorded and fixed genuine defects.'
m['hooks']={'guard':'none','enable':'no hooks in /repo: the verified text is generated from the sources as they are','source_commits':[]}
json.dump(m,open(os.path.join(V,'MANIFEST.json'),'w'),indent=1); print(len(m['checks']),'checks')
