#!/usr/bin/env python3
"""Writes tools/design_bugs.md: the table of planted changes (seeded/*/meta.json) and the results of the campaigns.
The column 'caught by' comes from tools/bug_harness.json, filled by hand after running each check with the change applied."""
import json,os,glob
d=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
h=json.load(open(d+'/tools/bug_harness.json'))
out=[open(d+'/tools/bugs_head.md').read().rstrip(),'','| planted change | property | what it needs | caught by |','|---|---|---|---|']
for f in sorted(glob.glob(d+'/seeded/*/meta.json')):
    i=f.split('/')[-2]; m=json.load(open(f))
    c=lambda s:' '.join(str(s).split()).replace('|','\\|')
    out.append('| `%s` | %s | %s | %s |'%(i,m['property'],c(m['needs']),h.get(i,'**missed**')))
out+=['',open(d+'/tools/bugs_tail.md').read().rstrip()]
open(d+'/tools/design_bugs.md','w').write('\n'.join(out)+'\n')
