#!/usr/bin/env python3
"""replay.py FILE [PRINTLEVEL]: re-executes a violation's behaviour against /repo, validates it again and shows calls and answers.
With PRINTLEVEL the library's own iteration output is shown too."""
import json, os, subprocess, sys, tempfile
sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
import build, qpcheck as q
from plans import PLANS
d=json.load(open(sys.argv[1])); pl=sys.argv[2] if len(sys.argv)>2 else None
wd=tempfile.mkdtemp(dir=os.path.join(q.V,'build')); b=d['behaviour']
if pl:
    for s in b['steps']: s.get('opts',{}).get('set',{}).pop('print',None)
f=os.path.join(wd,'r.in'); open(f,'w').write(json.dumps(b)+'\n')
exe=build.build([d['driver']],'asan')[d['driver']]
if pl: subprocess.run([exe,f,os.path.join(wd,'r.out'),wd],env=dict(os.environ,QPD_PL=pl,QPD_KEEP='1'))
out=q.drive(exe,wd,'r',f)
suite=[s for s in PLANS[d['property']]['suites'] if s['profile']==d['profile']][0]
lbl,_=q.validate(wd,'r',out,suite.get('trace','QPTrace'))
r=json.loads(open(out).readline()); print('end',r['end'])
num=lambda o,h,l: [a+c*1e-6 for a,c in zip(o.get(h,[]),o.get(l,[]))]
for k,e in enumerate(r['ev']):
    c,o=e['c'],e['o']; p=c.get('qp')
    print(k+1,{a:v for a,v in c.items() if a!='qp'})
    if p: print('    ',{a:v for a,v in p.items()})
    if suite.get('driver','qpdriver')=='qpdriver': print('   ->',o.get('ret'),'nwsr',o.get('nwsr'),o.get('st'),'inf' if o.get('inf') else '','unb' if o.get('unb') else '','x',num(o,'xh','xl'),'y',num(o,'yh','yl'),'w',o.get('w'),'obj',o.get('objh'),'ht',o.get('ht'),'bt',o.get('bt'))
    else: print('   ->',o)
print('deviations:',lbl)
