#!/usr/bin/env python3
"""Builds the library objects (from /repo's working tree) and the harness drivers into /verif/build."""
import hashlib, os, re, subprocess, sys, glob
from concurrent.futures import ThreadPoolExecutor
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO=os.environ.get('QPV_REPO','/repo')
CXX='g++'
DEFS=['-DLINUX','-D__USE_LONG_INTEGERS__','-D__USE_LONG_FINTS__','-DSOLVER_NONE','-D__NO_COPYRIGHT__']
FLAVOURS={'asan':['-O1','-g1','-fsanitize=address,undefined','-fno-sanitize=vptr,float-divide-by-zero,alignment','-fno-sanitize-recover=undefined','-fno-omit-frame-pointer'],
          'opt':['-O2']}
def sha(*parts):
    h=hashlib.sha256()
    for p in parts: h.update(p if isinstance(p,bytes) else p.encode()); h.update(b'\0')
    return h.hexdigest()[:20]
def tree_hash():
    h=hashlib.sha256()
    for root in ('src','include','interfaces/c'):
        for d,_,fs in sorted(os.walk(os.path.join(REPO,root))):
            for f in sorted(fs):
                if f.endswith(('.cpp','.hpp','.ipp','.h','.c')):
                    p=os.path.join(d,f); h.update(p.encode()); h.update(open(p,'rb').read())
    return h.hexdigest()
def retcodes(bd):
    s=open(os.path.join(REPO,'include/qpOASES/MessageHandling.hpp')).read()
    i=s.index('enum returnValue'); j=s.index('};',i); s=re.sub(r'/\*.*?\*/','',s[i:j],flags=re.S)
    s=re.sub(r'//.*','',s)
    names=[x for x in re.findall(r'^\s*([A-Z][A-Z0-9_]*)\s*(?:=[^,]*)?,?\s*$',s,flags=re.M) if x!='TERMINAL_LIST_ELEMENT']
    open(os.path.join(bd,'retcodes.inc'),'w').write('\n'.join(f'X({n})' for n in names)+'\n')
    return names
def run(cmd):
    r=subprocess.run(cmd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
    if r.returncode: sys.stderr.write(' '.join(cmd)+'\n'+r.stdout[-4000:]); raise SystemExit(2)
def build(drivers, flavour='asan'):
    """drivers: list of names in harness/*.cpp. Returns dict name->path"""
    th=tree_hash(); fl=FLAVOURS[flavour]
    hs=b''.join(open(f,'rb').read() for f in sorted(glob.glob(os.path.join(V,'harness','*'))) if os.path.isfile(f))
    key=sha(th,' '.join(fl+DEFS)); bd=os.path.join(V,'build',flavour+'-'+key)
    os.makedirs(bd,exist_ok=True); retcodes(bd)
    inc=['-I',os.path.join(REPO,'include'),'-I',os.path.join(REPO,'interfaces','c'),'-I',os.path.join(V,'harness'),'-I',bd]
    srcs=sorted(glob.glob(os.path.join(REPO,'src','*.cpp'))); jobs=[]; objs=[]
    for s in srcs:
        o=os.path.join(bd,os.path.basename(s)[:-4]+'.o'); objs.append(o)
        if not os.path.exists(o): jobs.append([CXX,'-std=c++17',*fl,*DEFS,*inc,'-w','-c',s,'-o',o+'.tmp'])
    out={}
    for d in drivers:
        src=os.path.join(V,'harness',d+'.cpp'); dk=sha(key,hs); o=os.path.join(bd,d+'-'+dk+'.o'); e=os.path.join(bd,d+'-'+dk); out[d]=e
        if not os.path.exists(e): jobs.append([CXX,'-std=c++17',*fl,*DEFS,*inc,'-w','-c',src,'-o',o+'.tmp'])
    # the C interface and a shim compiled as C, linked to every driver
    for s,cc in ((os.path.join(REPO,'interfaces','c','qpOASES_wrapper.cpp'),[CXX,'-std=c++17']),(os.path.join(V,'harness','cshim.c'),['gcc','-std=c99'])):
        o=os.path.join(bd,os.path.basename(s).split('.')[0]+'-'+sha(hs)+'.o'); objs.append(o)
        if not os.path.exists(o): jobs.append([*cc,*fl,*DEFS,*inc,'-w','-c',s,'-o',o+'.tmp'])
    jobs.sort(key=lambda j: 0 if 'QProblem' in j[-3] or 'driver' in j[-3] or 'Schur' in j[-3] else 1)
    def one(j): run(j); os.replace(j[-1],j[-1][:-4])
    with ThreadPoolExecutor(8) as ex: list(ex.map(one,jobs))
    for d in drivers:
        e=out[d]
        if not os.path.exists(e):
            run([CXX,*fl,'-Wl,--allow-multiple-definition',e+'.o',*objs,'-o',e+'.tmp']); os.replace(e+'.tmp',e)
    return out
if __name__=='__main__':
    print(build(sys.argv[2:],sys.argv[1]))
