#!/usr/bin/env python3
# assembles DESIGN.md from tools/design/, KNOWN_FINDINGS.jsonl and the planted bugs' descriptions
import json,os
R=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..'); rd=lambda p: open(os.path.join(R,p)).read()
fixed='\n'.join('* %s (%s): %s.'%(d['property'],d['commit'],d['what'].rstrip('.')) for d in (json.loads(l) for l in rd('KNOWN_FINDINGS.jsonl').splitlines() if l.startswith('{')) if d.get('status')=='fixed')
rows=['| bug | caught by | what breaks | needs |','|---|---|---|---|']
S=os.path.join(R,'seeded')
for d in sorted(os.listdir(S)):
    m=json.loads(rd('seeded/%s/meta.json'%d)); rows.append('| %s | %s | %s | %s |'%(d,m['property'],m['what_it_breaks'],m['needs']))
t=rd('tools/design/tail.md').replace('@FIXED@',fixed).replace('@SEEDED@','\n'.join(rows)).replace('@SWEEP@',rd('tools/design/sweep.md'))
open(os.path.join(R,'DESIGN.md'),'w').write(rd('tools/design/head.md').rstrip()+'\n\n'+rd('tools/design/props.md').rstrip()+'\n'+t)
