#!/usr/bin/env python3
"""Self-test of the rules: apply one-line source edits in a scratch copy and
run the named check.  usage: mut.py [ID...]; edits in tools/mutants.py
(breaking edits must be reported, neutral ones must stay quiet)."""
import os,sys,subprocess,shutil,tempfile,importlib.util,concurrent.futures as cf
here=os.path.dirname(os.path.abspath(__file__)); verif=os.path.dirname(here)
sys.path.insert(0,here)
import mutants
want=set(sys.argv[1:])
ocvbin=tempfile.mkdtemp(prefix='mutbin.',dir='/tmp'); shutil.copy(verif+'/bin/ocv',ocvbin+'/ocv')
import atexit; atexit.register(lambda: shutil.rmtree(ocvbin,ignore_errors=True))
def run(i,m):
    prop,kind,f,old,new=m
    d=tempfile.mkdtemp(prefix='mut.',dir='/tmp'); r=d+'/repo'
    try:
        subprocess.run(['cp','-a','/repo',r],check=True)
        edits=[(f,old,new)] if isinstance(f,str) else f
        for (f1,o,n) in edits:
            p=r+'/'+f1; s=open(p).read()
            if s.count(o)<1: return (i,m,'NOMATCH','')
            open(p,'w').write(s.replace(o,n,1))
        env=dict(os.environ,OCV_REPO=r,OCV_VERIF=d)
        kf=verif+'/known_findings.txt'
        if os.path.exists(kf): shutil.copy(kf,d)
        b=subprocess.run(['bash','-c','. %s/env.sh; cd %s && go build ./... && go vet ./%s'%(verif,r,os.path.dirname(edits[0][0])) if 0 else '. %s/env.sh; cd %s && go build ./...'%(verif,r)],capture_output=True,text=True,errors='replace')
        if b.returncode: return (i,m,'NOBUILD',b.stdout+b.stderr)
        c=subprocess.run(['bash','-c','. %s/env.sh; %s/ocv check %s'%(verif,ocvbin,prop)],env=env,capture_output=True,text=True,errors='replace')
        ok='VIOLATION' in c.stdout
        st=('caught' if ok else 'MISSED') if kind=='bad' else ('FALSE-ALARM' if ok else 'quiet')
        return (i,m,st,c.stdout+c.stderr)
    finally:
        shutil.rmtree(d,ignore_errors=True)
ms=[(i,m) for i,m in enumerate(mutants.M) if not want or want & set(m[0].split()) or str(i) in want]
with cf.ThreadPoolExecutor(6) as ex:
    for i,m,st,out in ex.map(lambda a:run(*a),ms):
        bad=st not in('caught','quiet')
        lab=m[2] if isinstance(m[2],str) else m[2][0][0]
        new=m[4] if isinstance(m[2],str) else m[2][0][2]
        print(i,m[0],m[1],st,lab,'|',' '.join((new or '').split())[:90])
        if bad or '-v' in sys.argv: print('     ',out[:1800].replace('\n','\n      '))
