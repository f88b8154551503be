#!/usr/bin/env python3
"""One chunk = TLC generates behaviours (QPGen) -> qpdriver replays them into the real library -> TLC checks the recorded
trace against the specification (QPTrace).  Chunks run in parallel; deviations come back as labels."""
import json, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPECS=os.path.join(V,'specs')
JARS='/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
class MachineryError(Exception): pass
def tlc(module,cfg,wd,tag,workers=1,timeout=780,heap='3g',extra=()):
    """runs TLC on specs/<module>.tla with the given configuration text; returns its output"""
    c=os.path.join(wd,tag+'.cfg'); open(c,'w').write(cfg)
    md=os.path.join(wd,tag+'.md'); os.makedirs(md,exist_ok=True)
    cmd=['java','-XX:+UseSerialGC' if workers==1 else '-XX:+UseParallelGC','-Xmx'+heap,'-Xss16m','-cp',JARS,'tlc2.TLC','-workers',str(workers),'-noGenerateSpecTE','-config',c,'-metadir',md,*extra,module+'.tla']
    try: r=subprocess.run(cmd,cwd=SPECS,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,timeout=timeout)
    except subprocess.TimeoutExpired: raise MachineryError(f'TLC timed out: {module} {tag}')
    shutil.rmtree(md,ignore_errors=True)
    return r.returncode,r.stdout
def need(module,rc,out):
    if rc!=0 or 'Model checking completed. No error has been found.' not in out:
        raise MachineryError(f'TLC failed on {module} (exit {rc}):\n'+out[-3000:])
def stats(out):
    m=re.findall(r'(\d+) states generated, (\d+) distinct states found',out)
    return (int(m[-1][0].replace(',','')),int(m[-1][1].replace(',',''))) if m else (0,0)
def generate(wd,tag,profile,base,size,chunk,module='QPGen'):
    f=os.path.join(wd,tag+'.in')
    rc,out=tlc(module,f'CONSTANTS Profile="{profile}" Base={base} ChunkSize={size} Chunk={chunk} Out="{f}"\nINIT Init\nNEXT Next\nINVARIANT Emitted\nCHECK_DEADLOCK FALSE\n',wd,tag+'g')
    need(module,rc,out); return f
def drive(driver,wd,tag,inp,timeout=600):
    o=os.path.join(wd,tag+'.out'); sd=os.path.join(wd,tag+'.scratch'); os.makedirs(sd,exist_ok=True)
    env=dict(os.environ,ASAN_OPTIONS='detect_leaks=1:symbolize=0:abort_on_error=0:exitcode=66:allocator_may_return_null=1',UBSAN_OPTIONS='halt_on_error=1:symbolize=0:print_stacktrace=0')
    try: r=subprocess.run([driver,inp,o,sd],stdout=subprocess.PIPE,stderr=subprocess.STDOUT,timeout=timeout,env=env)
    except subprocess.TimeoutExpired: raise MachineryError('driver timed out')
    shutil.rmtree(sd,ignore_errors=True)
    if r.returncode: raise MachineryError(f'driver failed ({r.returncode}): '+r.stdout.decode(errors='replace')[-2000:])
    return o
def validate(wd,tag,trace,module='QPTrace'):
    """labels: list of (behaviour id, event, [labels])"""
    rc,out=tlc(module,f'CONSTANTS File="{trace}"\nINIT Init\nNEXT Next\nPOSTCONDITION Accepted\nCHECK_DEADLOCK FALSE\n',wd,tag+'v')
    need(module,rc,out)
    if 'NOTCONSUMED|' in out: raise MachineryError('trace not consumed: '+re.search(r'NOTCONSUMED\|[^"]*',out).group(0))
    lbl=[(int(a),int(e),l.split()) for a,e,l in re.findall(r'"LBL\|(\d+)\|(\d+)\|([^"]*)"',out)]
    return lbl,stats(out)
def pick(trace,ids,dst):
    with open(dst,'w') as o:
        for line in open(trace):
            m=re.match(r'\{"id":(\d+)',line)
            if m and int(m.group(1)) in ids: o.write(line)
    return dst
class Job:
    def __init__(s,profile,base,size,chunk,gen='QPGen',trace='QPTrace'): s.profile,s.base,s.size,s.chunk,s.gen,s.trace=profile,base,size,chunk,gen,trace
def run_job(j,driver,wd):
    tag=f'{j.gen}-{j.profile}-{j.chunk}'
    inp=generate(wd,tag,j.profile,j.base,j.size,j.chunk,j.gen)
    out=drive(driver,wd,tag,inp)
    lbl,st=validate(wd,tag,out,j.trace)
    events=0; ops={}; sample=None; rets={}
    for line in open(out):
        n=line.count('"c":{'); events+=n
        for op in re.findall(r'"c":\{[^{}]*?"op":"(\w+)"',line): ops[op]=ops.get(op,0)+1
        for r in re.findall(r'"o":\{"ret":"(\w+)"',line): rets[r]=rets.get(r,0)+1
        if sample is None: sample=line
    return dict(job=j,inp=inp,out=out,labels=lbl,states=st[1],transitions=st[0],behaviours=sum(1 for _ in open(out)),events=events,ops=ops,rets=rets,sample=sample,tag=tag)
def confirm(res,driver,wd,ids):
    """re-run the given behaviours; only labels that repeat are believed"""
    tag=res['tag']+'-confirm'
    inp=pick(res['inp'],ids,os.path.join(wd,tag+'.in'))
    out=drive(driver,wd,tag,inp)
    lbl,_=validate(wd,tag,out,res['job'].trace)
    return lbl,inp,out
