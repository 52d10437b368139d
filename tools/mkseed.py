#!/usr/bin/env python3
"""Build and validate planted bugs from tools/seeds/*.py definitions.
usage: mkseed.py [ID...].  A definition: S(id, property, needs, breaks, edits=[(file,old,new)...], pkg, test, race=False, run='TestSeed')"""
import os,sys,subprocess,shutil,tempfile,json,glob,concurrent.futures as cf
V='/verif'
L=[]
def S(id,property,needs,breaks,edits,pkg,test,race=False,timeout=120): L.append(dict(id=id,property=property,needs=needs,breaks=breaks,edits=edits,pkg=pkg,test=test,race=race,timeout=timeout))
for f in sorted(glob.glob(V+'/tools/seeds/*.py')): exec(open(f).read(),dict(S=S))
DEMO='''#!/bin/bash
# Runs an in-package test (laid over the package) against the code in the current directory.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
cp "$here/seed_demo_test.go.txt" "$tmp/zz_seed_demo_test.go"
echo "{\\"Replace\\": {\\"$repo/%(pkg)s/zz_seed_demo_test.go\\": \\"$tmp/zz_seed_demo_test.go\\"}}" > "$tmp/overlay.json"
go test -vet=off -count=1 %(race)s-timeout %(timeout)ds -overlay "$tmp/overlay.json" -run 'TestSeedDemo$' "./%(pkg)s"
'''
def sh(cmd,cwd=None,env=None): return subprocess.run(['bash','-c',cmd],cwd=cwd,env=env,capture_output=True,text=True)
base=json.load(open('/opt/vp/BASELINE.json'))
def build(d):
    out=V+'/seeded/'+d['id']
    os.makedirs(out,exist_ok=True)
    t=tempfile.mkdtemp(prefix='seed.',dir='/tmp'); r=t+'/repo'
    try:
        sh('cp -a /repo %s'%r)
        for f,o,n in d['edits']:
            p=r+'/'+f; s=open(p).read()
            if s.count(o)!=1: return d['id'],'edit matches %d times in %s: %s'%(s.count(o),f,o[:60])
            open(p,'w').write(s.replace(o,n))
        diff=subprocess.run(['git','-C',r,'diff'],capture_output=True,text=True).stdout
        open(out+'/patch.diff','w').write(diff)
        open(out+'/seed_demo_test.go.txt','w').write(d['test'])
        open(out+'/demo.sh','w').write(DEMO%dict(pkg=d['pkg'],race='-race ' if d['race'] else '',timeout=d['timeout'])); os.chmod(out+'/demo.sh',0o755)
        json.dump(dict(property=d['property'],needs=d['needs'],what_it_breaks=d['breaks']),open(out+'/meta.json','w'),indent=1)
        b=sh('. /opt/vp/env.sh 2>/dev/null; go build ./...',cwd=r)
        if b.returncode: return d['id'],'does not build: '+b.stdout+b.stderr
        x=sh(out+'/demo.sh',cwd='/repo')
        if x.returncode: return d['id'],'demo fails on the unchanged tree: '+(x.stdout+x.stderr)[-1500:]
        y=sh(out+'/demo.sh',cwd=r)
        if y.returncode==0: return d['id'],'demo passes with the patch'
        if 'TestSeedDemo' not in y.stdout and 'panic' not in y.stdout+y.stderr and 'DATA RACE' not in y.stdout: return d['id'],'demo fails oddly: '+(y.stdout+y.stderr)[-800:]
        z=sh('go test -vet=off -count=1 ./... 2>&1 | grep -v "no test files"',cwd=r)
        fails=[l for l in z.stdout.splitlines() if l.startswith('--- FAIL') and 'TestAgainstSpecs' not in l]
        res='ok' if not fails else 'TESTS FAIL: '+'; '.join(fails[:6])
        env=dict(os.environ,OCV_REPO=r,OCV_VERIF=t)
        if os.path.exists(V+'/known_findings.txt'): shutil.copy(V+'/known_findings.txt',t)
        c=sh('. %s/env.sh; %s/bin/ocv check %s'%(V,V,d['property']),env=env)
        return d['id'],res+(' CAUGHT' if 'VIOLATION' in c.stdout else ' not caught'),c.stdout[:300]
    finally: shutil.rmtree(t,ignore_errors=True)
want=set(sys.argv[1:])
with cf.ThreadPoolExecutor(3) as ex:
    for r in ex.map(build,[d for d in L if not want or d['id'] in want or d['property'] in want]): print(*r)
