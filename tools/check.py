#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]: decides one property on /repo's working tree.
Exit 0: held on everything explored.  Exit 1 with VIOLATION line(s): violated.  Exit 2: the machinery failed."""
import argparse, collections, fnmatch, hashlib, json, os, re, shutil, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
import build, qpcheck as q
from plans import PLANS
V=q.V
def known():
    """known findings: behaviours (by the hash of their calls) whose deviation is a recorded defect"""
    k={}
    f=os.path.join(V,'KNOWN_FINDINGS')
    if os.path.exists(f):
        for line in open(f):
            m=re.match(r'finding: property=(\w+) key=(\w+) label=(\S+) (.*)',line)
            if m: k[(m.group(1),m.group(2),m.group(3))]=m.group(4).strip()
    return k
def key(behaviour,event):
    s=behaviour['steps'][:event] if 'steps' in behaviour else behaviour
    return hashlib.sha256(json.dumps(s,sort_keys=True).encode()).hexdigest()[:16]
def relevant(labels,pats): return [l for l in labels if any(fnmatch.fnmatchcase(l,p) for p in pats)]
def main():
    ap=argparse.ArgumentParser(); ap.add_argument('property'); ap.add_argument('--tier',default=os.environ.get('VERIF_TIER','quick'))
    ap.add_argument('--seed',type=int,default=int(os.environ.get('VERIF_SEED','1') or 1)); ap.add_argument('--keep',action='store_true'); ap.add_argument('--scale',type=float,default=None)
    a=ap.parse_args(); pid=a.property; plan=PLANS[pid]; t0=time.time(); tier='thorough' if a.tier=='thorough' else 'quick'
    if a.scale is None: a.scale=1.0 if tier=='thorough' else 0.7     # the quick check runs 70 % of the chunks of its plan (about a minute)
    wd=tempfile.mkdtemp(prefix=f'{pid}-',dir=os.path.join(V,'build') if os.path.isdir(os.path.join(V,'build')) else (os.makedirs(os.path.join(V,'build')) or os.path.join(V,'build')))
    try: rc=run(pid,plan,a,tier,wd,t0)
    finally:
        if not a.keep: shutil.rmtree(wd,ignore_errors=True)
    sys.exit(rc)
def run(pid,plan,a,tier,wd,t0):
    cov=collections.Counter(); samples=[]; viol=[]; kf=[]; notes={}
    deadline=t0+(700 if tier=='quick' else 6*3600)
    # 1. exhaustive models
    for mc in plan.get('models',[]):
        rc,out=q.tlc(mc['module'],open(os.path.join(q.SPECS,mc['cfg'])).read(),wd,mc['module']+'-mc',workers=8,heap='8g',timeout=600)
        if rc!=0: raise q.MachineryError(f"TLC on {mc['module']}: exit {rc}\n"+out[-3000:])
        g,d=q.stats(out); cov['states']+=d; cov['transitions']+=g; notes.setdefault('exhaustive models',[]).append(f"{mc['module']}: {d} distinct states")
    # 2. generate, replay, validate
    drivers=sorted({s.get('driver','qpdriver') for s in plan['suites']}); exe=build.build(drivers,'asan')
    jobs=[]
    base=(a.seed%2000)*1000000
    for s in plan['suites']:
        nch=max(1,round(s[tier][0]*a.scale)); size=s[tier][1]
        for c in range(nch): jobs.append((s,q.Job(s['profile'],base,size,c,s.get('gen','QPGen'),s.get('trace','QPTrace'))))
    rets=collections.Counter(); ops=collections.Counter()
    def one(sj):
        s,j=sj
        if time.time()>deadline: return None
        return s,q.run_job(j,exe[s.get('driver','qpdriver')],wd)
    with ThreadPoolExecutor(8) as ex: done=[r for r in ex.map(one,jobs) if r]
    if len(done)<len(jobs): notes['skipped']=f'{len(jobs)-len(done)} of {len(jobs)} chunks not run (time)'
    kn=known()
    for s,r in done:
        cov['states']+=r['states']; cov['transitions']+=r['transitions']; cov['traces']+=r['behaviours']; cov['events']+=r['events']; rets.update(r['rets']); ops.update(r['ops'])
        if len(samples)<3 and r['sample'] and r['job'].chunk==0: samples.append(r['sample'][:4000])
        pats=s.get('labels',plan['labels'])
        bad=[(i,e,relevant(ls,pats)) for i,e,ls in r['labels']]; bad=[x for x in bad if x[2]]
        for i,e,ls in r['labels']:
            for x in ls:
                if x not in relevant([x],pats): cov['foreign labels']+=1
        if not bad: continue
        ids={i for i,_,_ in bad[:200]}
        lbl,inp,out=q.confirm(r,exe[s.get('driver','qpdriver')],wd,ids)           # believe only what repeats
        again={(i,e,x) for i,e,ls in lbl for x in ls}
        beh={json.loads(l)['id']:json.loads(l) for l in open(inp)}
        rec={json.loads(l)['id']:json.loads(l) for l in open(out)}
        for i,e,ls in bad:
            ls=[x for x in ls if (i,e,x) in again]
            for x in ls:
                k=(pid,key(beh[i],e),x)
                if k in kn: kf.append((k,kn[k]))
                else: viol.append((s,i,e,x,beh[i],rec.get(i)))
    for k,w in kf: print(f'KNOWN-FINDING: property={pid} {w} [{k[2]}]')
    rd=os.path.join(V,'build','replay'); seen=set()
    for s,i,e,x,b,rec in viol:
        f=os.path.join(rd,f'{pid}-{s["profile"]}-{i}.json')
        if f not in seen:
            if len(seen)>=5: continue
            os.makedirs(rd,exist_ok=True); seen.add(f)
            json.dump({'property':pid,'profile':s['profile'],'driver':s.get('driver','qpdriver'),'behaviour':b,'recorded':rec,'deviations':[[e2,x2,key(b,e2)] for s2,i2,e2,x2,_,_ in viol if i2==i and s2 is s]},open(f,'w'))
        print(f'  {s["profile"]} behaviour {i} event {e}: {x}')
        if f in seen: print(f'VIOLATION property={pid} replay={f}')
    ev=dict(property=pid,tier=tier,seed=a.seed,level=plan.get('level','model_checking'),
        coverage=dict(states=cov['states'],transitions=cov['transitions'],traces_validated_against_impl=cov['traces'],events_validated=cov['events'],
                      return_codes_seen=dict(rets.most_common(40)),operations=dict(ops),samples=samples,labels_of_other_properties=cov['foreign labels'],
                      suites=[f"{s['profile']} ({s.get('gen','QPGen')} -> {s.get('driver','qpdriver')} -> {s.get('trace','QPTrace')})" for s in plan['suites']],deviations_looked_for=plan['labels'],**notes),
        assumptions=plan.get('assumptions',[]),wall_s=round(time.time()-t0,1),violations=len({(s['profile'],i) for s,i,*_ in viol}))
    os.makedirs(os.path.join(V,'evidence'),exist_ok=True)
    json.dump(ev,open(os.path.join(V,'evidence',pid+'.json'),'w'),indent=1)
    print(f"{pid} {tier}: {cov['traces']} behaviours, {cov['events']} events, {cov['states']} states, {len(viol)} deviations, {len(kf)} known, {ev['wall_s']} s")
    return 1 if viol else 0
if __name__=='__main__':
    try: main()
    except q.MachineryError as e: print('MACHINERY ERROR:',e); sys.exit(2)
