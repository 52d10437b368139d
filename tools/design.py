#!/usr/bin/env python3
# Emits /verif/DESIGN.md from design_head.md, properties, checks, seeds, design_tail.md.
import json,subprocess,os,glob,sys
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0,V+'/tools')
cs={}
for l in subprocess.check_output(['bash','-c','. ./env.sh; ./bin/ocv list'],cwd=V,text=True).splitlines():
    d=json.loads(l); cs[d['id']]=d
props=[json.loads(l) for l in open(V+'/properties.jsonl')]
man=json.load(open(V+'/MANIFEST.json')); na={x['property']:x['reason'] for x in man['not_applicable']}
import mutants
cnt={}
for m in mutants.M:
    c=cnt.setdefault(m[0],[0,0]); c[0 if m[1]=='bad' else 1]+=1
out=[open(V+'/tools/design_head.md').read().rstrip(),'','## 3. The properties and how each is decided','',
'Oracle in every case: the statement in properties.jsonl, written out in the rule as a formula over the graph. (n/m) = breaking / neutral edits in tools/mutants.py that exercise the check.','']
for p in props:
    if p['id'] in cs:
        d=cs[p['id']]; c=cnt.get(p['id'],[0,0])
        out+=['**%s. %s** (%d/%d). *Method:* %s. *What is decided:* %s'%(p['id'],p['title'],c[0],c[1],d['technique'],d['note']),'']
out+=['## 4. Not applicable','']
for p in props:
    if p['id'] in na: out+=['* **%s. %s** — %s'%(p['id'],p['title'],na[p['id']])]
out+=['',open(V+'/tools/design_tail.md').read().rstrip(),'','| planted bug | property | needs | reported by |','|---|---|---|---|']
for f in sorted(glob.glob(V+'/seeded/*/meta.json')):
    m=json.load(open(f)); n=os.path.basename(os.path.dirname(f))
    out.append('| %s | %s | %s | %s |'%(n,m['property'],m['needs'].replace('|','/').replace('\n',' '),m.get('caught_by',m['property'])))
open(V+'/DESIGN.md','w').write('\n'.join(out)+'\n')
