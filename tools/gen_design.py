#!/usr/bin/env python3
"""DESIGN.md = tools/design_head.md + per-property section from the harness sources + design_tail.md + seeded table."""
import json,re,glob,os
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(root+'/properties.jsonl')]
H={}
for f in sorted(glob.glob(root+'/harness/zzvh/h*.go')):
    for m in re.finditer(r'((?:^//.*\n)+)^func ((C\d\d)_\w+)\(\)',open(f).read(),re.M):
        doc=' '.join(l[2:].strip() for l in m.group(1).strip().split('\n'))
        H.setdefault(m.group(3),[]).append((m.group(2),doc.split(':',1)[1].strip() if ':' in doc else doc))
extra=json.load(open(root+'/tools/design_notes.json'))
out=[open(root+'/tools/design_head.md').read()]
for p in props:
    i=p['id']
    if i not in H: continue
    out.append('\n### %s %s\n\n'%(i,p['title']))
    if i in extra: out.append('Oracle: '+extra[i]+'\n\n')
    for n,d in H[i]: out.append('* `%s`: %s\n'%(n,d))
out.append(open(root+'/tools/design_tail.md').read())
out.append(open(root+'/tools/design_bugs.md').read())
open(root+'/DESIGN.md','w').write(''.join(out))
