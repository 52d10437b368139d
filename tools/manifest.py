#!/usr/bin/env python3
# Emits /verif/MANIFEST.json from the analyser's own list of checks.
import json,subprocess
cs=[json.loads(l) for l in subprocess.check_output(['bash','-c','. ./env.sh; ./bin/ocv list'],cwd='/verif',text=True).splitlines()]
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
have={c['id'] for c in cs}
NA={
'N01':'The requested fraction is a statement about the distribution of pseudo-random trace IDs and float rounding; no static argument over the source bounds it. The parts decidable from the source (decision depends only on the trace ID, threshold comparison, sampled parents kept) are in C06.',
'N02':'Real-time periods depend on the runtime timer and scheduler; the source only shows which duration is passed to the ticker (covered in C27).',
'N03':'Deciding this needs a linearizability argument over histories of asynchronous commands, with measurements dropped or queued at run time; the static part (one worker, one queue, replies) is in C17 and C18.',
'N04':'Accuracy is a bound on accumulated floating-point error over unbounded histories; the update formulas themselves are compared with the specification in C21.',
'N05':'Escaping is done by html/template at run time over data-dependent templates; nothing in reach bounds the rendered output from the source.',
'N06':'Overhead is a run-time quantity of a machine and workload.',
}
m={'version':1,'setup_cmd':'bash setup.sh','checks':[],'not_applicable':[]}
for c in cs:
    m['checks'].append({'property':c['id'],'quick_cmd':'./check.sh '+c['id'],'thorough_cmd':'./check.sh '+c['id'],'technique':c['technique'],'level':'other','level_note':c['note']})
for p in props:
    if p['id'] not in have:
        m['not_applicable'].append({'property':p['id'],'reason':NA.get(p['id'],'no check built yet')})
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
