#!/usr/bin/env python3
"""Builds and confirms the planted bugs of /verif/seeded from tools/seeds/*.py (developer aid).
usage: seed.py [-n NAME] [-c]    -c: also run the property's check against the patched copy
seed(id, prop, needs, breaks, demo_body, (file, old, new)..., imports='...', flags='...')"""
import sys, os, subprocess, tempfile, shutil, glob, json, concurrent.futures as cf
V='/verif'; S=[]; args=sys.argv[1:]; name=None; chk=False
while args:
    a=args.pop(0)
    if a=='-n': name=args.pop(0)
    elif a=='-c': chk=True
def seed(id,prop,needs,breaks,body,*edits,imports='',flags='',pkg='.'): S.append((id,prop,needs,breaks,body,edits,imports,flags,pkg))
for f in sorted(glob.glob(V+'/tools/seeds/*.py')): exec(compile(open(f).read(),f,'exec'))
root=tempfile.mkdtemp(prefix='seed.',dir='/tmp')
ENV=dict(os.environ,PATH='/opt/veriftools/go1.24.13/bin:'+os.environ['PATH'],TZ='UTC',GOTOOLCHAIN='local',GOPROXY='off',GOWORK='off')
def sh(c,cwd,t=600): return subprocess.run(['bash','-c',c],cwd=cwd,env=dict(ENV,GOFLAGS=f'-mod=mod -modfile={cwd}.mod'),capture_output=True,text=True,timeout=t)
DEMO='''#!/bin/bash
# Runs demo_test.go inside the package {pkg} of the repository in the working directory.
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 3
trap 'rm -rf "$tmp"' EXIT
export PATH=/opt/veriftools/go1.24.13/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOWORK=off TZ=UTC
cp go.mod "$tmp/go.mod" && cp go.sum "$tmp/go.sum" || exit 3
cat > "$tmp/overlay.json" <<J
{{"Replace": {{"$PWD/{pkg}/zz_seeded_demo_test.go": "$here/demo_test.go"}}}}
J
GOFLAGS="-mod=mod -modfile=$tmp/go.mod" go test {flags} -vet=off -count=1 -timeout 120s -overlay "$tmp/overlay.json" -run '^TestSeededDemo$' ./{pkg}
'''
def one(s):
    id,prop,needs,breaks,body,edits,imports,flags,pkg=s
    d=V+'/seeded/'+id; os.makedirs(d,exist_ok=True)
    w=tempfile.mkdtemp(dir=root)+'/repo'; os.makedirs(w)
    subprocess.check_call(f'git -C /repo archive HEAD | tar x -C {w}',shell=True)
    subprocess.check_call('git init -q && git add -A && git -c user.name=x -c user.email=x@x commit -qm x',shell=True,cwd=w)
    shutil.copy(w+'/go.mod',w+'.mod'); shutil.copy(w+'/go.sum',w+'.sum')
    pk='dateparser' if pkg=='.' else pkg.split('/')[-1]
    open(d+'/demo_test.go','w').write('package %s\n\nimport (\n%s)\n\nfunc TestSeededDemo(t *testing.T) {\n%s\n}\n'%(pk,''.join('\t"%s"\n'%i for i in sorted(set(['testing']+imports.split()))),body.strip('\n')))
    subprocess.run(['gofmt','-w',d+'/demo_test.go'],env=ENV)
    open(d+'/demo.sh','w').write(DEMO.format(pkg=pkg,flags=flags)); os.chmod(d+'/demo.sh',0o755)
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(d+'/meta.json','w'),indent=1)
    out=[]
    r=sh(f'bash {d}/demo.sh',w)
    if r.returncode: out.append('demo FAILS on unchanged tree: '+(r.stdout+r.stderr)[-900:])
    for f,old,new in edits:
        p=w+'/'+f; t=open(p).read()
        if t.count(old)!=1: return f'BAD {id}: {f}: {t.count(old)} matches of {old[:50]!r}'
        open(p,'w').write(t.replace(old,new))
    sh('gofmt -l .',w)
    diff=sh('git diff',w).stdout; open(d+'/patch.diff','w').write(diff)
    b=sh('go build ./... && go build -tags re2_wasm ./...',w)
    if b.returncode: return f'BAD {id}: build: {b.stderr[-500:]}'
    r=sh(f'bash {d}/demo.sh',w)
    if r.returncode==0: out.append('demo PASSES with the patch')
    for tag in ('','-tags re2_wasm'):
        t=sh(f'go test {tag} -vet=off -count=1 ./... 2>&1 | grep -E "^(--- FAIL|FAIL|panic)|^ +--- FAIL" | head',w,900)
        if t.stdout.strip(): out.append(f'tests {tag}: '+t.stdout.strip())
    c=''
    if chk:
        os.makedirs(w+'v',exist_ok=True); shutil.copy(V+'/known-findings.txt',w+'v/')
        r=subprocess.run([V+'/bin/sa',prop],capture_output=True,text=True,env=dict(os.environ,GOFLAGS='-mod=mod',GOTOOLCHAIN='local',VERIF_REPO=w,VERIF_DIR=w+'v'))
        c='nochk' if 'no check for' in r.stdout else {0:'MISSED',1:'caught'}.get(r.returncode,f'rc={r.returncode} {r.stderr[-200:]}')
        if r.returncode==1: c+='\n      '+'\n      '.join(l[:230] for l in r.stdout.splitlines() if l.startswith('  '))[:500]
    shutil.rmtree(os.path.dirname(w))
    return f'{"ok  " if not out else "BAD "} {id} {prop} {c}'+''.join('\n   '+o for o in out)
try:
    with cf.ThreadPoolExecutor(3) as ex:
        for r in ex.map(one,[s for s in S if not name or name in s[0]]): print(r,flush=True)
finally: shutil.rmtree(root)
