#!/usr/bin/env python3
# Compares a test.sh result with the baseline: prints stable tests that no longer pass.
import json,sys
o=json.load(open(sys.argv[1])); b=json.load(open('/opt/vp/BASELINE.json'))
p=set(map(str,o['passed']))
m=[t for t in b['stable'] if str(t) not in p]
print('missing',len(m),m[:10])
