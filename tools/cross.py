#!/usr/bin/env python3
"""Run every check against every neutral edit of tools/mutants.py (and the
edits of tools/refactor.py): none may report.  usage: cross.py [IDX|name...]"""
import os,sys,subprocess,shutil,tempfile,re,concurrent.futures as cf
here=os.path.dirname(os.path.abspath(__file__)); verif=os.path.dirname(here)
sys.path.insert(0,here)
import mutants
want=set(sys.argv[1:])
ocvbin=tempfile.mkdtemp(prefix='mutbin.',dir='/tmp'); shutil.copy(verif+'/bin/ocv',ocvbin+'/ocv')
import atexit; atexit.register(lambda: shutil.rmtree(ocvbin,ignore_errors=True))
IDS=' '.join('C%02d'%i for i in range(1,42))
def run(i,f,old,new):
    d=tempfile.mkdtemp(prefix='mut.',dir='/tmp'); r=d+'/repo'
    try:
        subprocess.run(['cp','-a','/repo',r],check=True)
        edits=[(f,old,new)] if isinstance(f,str) else f
        for (f1,o,n) in edits:
            p=r+'/'+f1; s=open(p).read()
            if s.count(o)<1: return (i,f1,'NOMATCH',o[:80])
            open(p,'w').write(s.replace(o,n,1))
        kf=verif+'/known_findings.txt'
        shutil.copy(kf,d)
        env=dict(os.environ,OCV_REPO=r,OCV_VERIF=d)
        b=subprocess.run(['bash','-c','. %s/env.sh; cd %s && go build ./... && go vet ./%s'%(verif,r,os.path.dirname(edits[0][0]))],capture_output=True,text=True,errors='replace')
        if b.returncode: return (i,edits[0][0],'NOBUILD',b.stdout+b.stderr)
        if os.environ.get('CROSS_TEST'):
            b=subprocess.run(['bash','-c','. %s/env.sh; cd %s && go test -skip "TestAgainstSpecs|TestHandlerImplementsHTTPCloseNotify" ./%s/...'%(verif,r,os.path.dirname(edits[0][0]))],capture_output=True,text=True,errors='replace')
            if b.returncode: return (i,edits[0][0],'TESTFAIL',(b.stdout+b.stderr)[-700:])
        c=subprocess.run(['bash','-c','. %s/env.sh; %s/ocv check %s'%(verif,ocvbin,IDS)],env=env,capture_output=True,text=True,errors='replace')
        v=sorted(set(re.findall(r'VIOLATION property=(C\d+)',c.stdout)))
        n=len(re.findall(r'^OK property=',c.stdout,re.M))
        if not v and n==41: return (i,edits[0][0],'quiet','')
        return (i,edits[0][0],'FALSE-ALARM '+' '.join(v) if v else 'BROKEN %d'%n,'\n'.join(l for l in (c.stdout+c.stderr).split('\n') if not l.startswith('OK'))[:2500])
    finally:
        shutil.rmtree(d,ignore_errors=True)
todo=[]
if not want or any(w.isdigit() or w[0]=='C' or w=='mut' for w in want):
    todo+=[(i,)+m[2:] for i,m in enumerate(mutants.M) if m[1]=='ok' and (not want or 'mut' in want or str(i) in want or m[0] in want)]
if os.path.exists(here+'/refactor.py'):
    import refactor
    todo+=[(n,e,None,None) for n,e in refactor.R if not want or n in want or n.split('/')[0] in want]
with cf.ThreadPoolExecutor(int(os.environ.get('CROSS_J','6'))) as ex:
    for i,f,st,out in ex.map(lambda a:run(*a),todo):
        print(i,f,st,flush=True)
        if st!='quiet': print('     ',out.replace('\n','\n      '),flush=True)
