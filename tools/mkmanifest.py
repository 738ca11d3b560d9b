#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and the checks that exist."""
import json, os
V='/verif'
props=[json.loads(l) for l in open(V+'/properties.jsonl')]
notes=json.load(open(V+'/tools/level_notes.json'))
na=json.load(open(V+'/tools/not_applicable.json'))
checks=[];missing=[]
for p in props:
    i=p['id']
    if os.path.exists('%s/checks/%s.py'%(V,i.lower())) and i not in na:
        checks.append(dict(property=i,quick_cmd='python3 check.py '+i,thorough_cmd='VERIF_TIER=thorough python3 check.py '+i,
          evidence_file='evidence/%s.json'%i,
          technique=notes.get(i,{}).get('technique','TLA+ specification checked by TLC; TLC-judged traces of the real code'),
          level='model_checking',
          level_note=notes.get(i,{}).get('note','Design model explored exhaustively within small constants; the real code is bound to the specification by TLC validation of recorded executions, so the guarantee for the code covers the executions explored.')))
    else:
        missing.append(dict(property=i,reason=na.get(i,'check not built yet')))
m=dict(version=1,setup_cmd='python3 tools/setup.py',checks=checks,not_applicable=missing,
  notes='TLA+/TLC; no hooks in /repo are needed: every harness uses the public API and is built from /repo\'s working tree by the check itself.')
json.dump(m,open(V+'/MANIFEST.json','w'),indent=1); open(V+'/MANIFEST.json','a').write('\n')
print(len(checks),'checks',len(missing),'missing')
