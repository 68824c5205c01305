#!/usr/bin/env python3
# fills the list of planted bugs of DESIGN.md
import json,os,re
s=open('/verif/DESIGN.md').read()
rows=['<!-- seeds -->','| change | property | needs |','|----|----|----|']
for d in sorted(os.listdir('/verif/seeded')):
    m=json.load(open('/verif/seeded/%s/meta.json'%d))
    rows.append('| %s | %s | %s |'%(d,m['property'],m['needs']))
rows.append('<!-- /seeds -->')
t='\n'.join(rows)
if '@SEEDS@' in s: s=s.replace('@SEEDS@',t)
else: s=re.sub(r'<!-- seeds -->.*?<!-- /seeds -->',lambda m:t,s,flags=re.S)
open('/verif/DESIGN.md','w').write(s)
