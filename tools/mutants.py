#!/usr/bin/env python3
"""Runs the analyzer on small source edits of a scratch copy of /repo (developer aid, not a check).
usage: mutants.py [-p PROP] [-n NAME] [-t]   edits are in /verif/mutants/*.py as calls bug(...) / same(...)
bug: the named properties must report; same: behaviour-preserving edit, all checks must stay quiet."""
import re, sys, os, subprocess, tempfile, shutil, glob, concurrent.futures as cf, threading
V='/verif'; args=sys.argv[1:]
prop=name=None; runtests=False
while args:
    a=args.pop(0)
    if a=='-p': prop=args.pop(0)
    elif a=='-n': name=args.pop(0)
    elif a=='-t': runtests=True
M=[]
def bug(n,props,*edits): M.append(('bug',n,props.split(),edits))
def same(n,*edits): M.append(('same',n,[],edits))
for f in sorted(glob.glob(V+'/mutants/*.py')): exec(compile(open(f).read(),f,'exec'))
ALL=subprocess.check_output([V+'/bin/sa','list'],text=True).split() 
sel=[m for m in M if (not name or name in m[1]) and (not prop or m[0]=='same' or prop in m[2])]
env=dict(os.environ,GOFLAGS='-mod=mod',GOTOOLCHAIN='local')
root=tempfile.mkdtemp(prefix='mut.',dir='/tmp'); base=root+'/base'; os.mkdir(base); SA=root+'/sa'; shutil.copy(V+'/bin/sa',SA)
subprocess.check_call(f'git -C /repo archive HEAD | tar x -C {base} --exclude=*.bench; cp /repo/go.mod /repo/go.sum {base}/',shell=True)
pool=[]; lock=threading.Lock()
def run(m):
    with lock:
        d=pool.pop() if pool else None
    if d is None:
        d=tempfile.mkdtemp(dir=root); shutil.copytree(base,d+'/repo'); os.mkdir(d+'/v'); shutil.copy(V+'/known-findings.txt',d+'/v/')
    kind,n,props,edits=m; out=[]; touched=set()
    try:
        for f,old,new in edits:
            p=d+'/repo/'+f; s=open(p).read()
            if s.count(old)<1: return f'EDIT  {n}: {f}: text not found: {old[:60]!r}'
            if s.count(old)>1: return f'EDIT  {n}: {f}: ambiguous: {old[:60]!r}'
            touched.add(f); open(p,'w').write(s.replace(old,new))
        sh='export PATH=/opt/veriftools/go1.24.13/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=mod; cd %s/repo && go vet . ./internal/... 2>&1 | grep -v "^#" | head -5; go build ./... 2>&1 | head -5'%d
        if runtests: sh+='; go test ./... 2>&1 | grep -v "no test files" | grep -v "^ok" | head -8'
        b=subprocess.run(['bash','-c',sh],capture_output=True,text=True).stdout.strip()
        if b: out.append('   build/test: '+b.replace('\n','\n     '))
        ids=ALL if kind=='same' and not prop else ([prop] if prop else props)
        ids=[i for i in ids if i in ALL]
        hit=[]
        every=kind=='same' and not prop
        for i in (['all'] if every else ids):
            r=subprocess.run([SA,i],capture_output=True,text=True,env=dict(os.environ,VERIF_REPO=d+'/repo',VERIF_DIR=d+'/v'))
            if r.returncode not in (0,1): out.append('   %s rc=%d %s'%(i,r.returncode,r.stderr[-300:]))
            if r.returncode==1:
                hit+=sorted(set(re.findall(r'VIOLATION property=(\w+)',r.stdout))) if every else [i]
                out.append('   '+'\n   '.join(l[:260] for l in r.stdout.splitlines() if l.startswith('  '))[:700])
        if kind=='bug': st='caught' if hit else ('MISSED' if ids else 'nochk')
        else: st='ALARM' if hit else 'quiet'
        return f'{st:6} {n} {" ".join(hit or ids if kind=="bug" else hit)}'+('\n'+'\n'.join(out) if (out and (name or st in("ALARM",) or b)) else '')
    finally:
        for f in touched: shutil.copy(base+'/'+f,d+'/repo/'+f)
        with lock: pool.append(d)
try:
    with cf.ThreadPoolExecutor(6) as ex:
        for r in ex.map(run,sel): print(r,flush=True)
finally: shutil.rmtree(root)
