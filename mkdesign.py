#!/usr/bin/env python3
# Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json.
import json,glob,os
d='/verif/DESIGN.md'; s=open(d).read()
m='<!-- planted -->\n'
s=s[:s.index(m)+len(m)]
s+='| bug | property | needs | breaks | caught by (quick) |\n|---|---|---|---|---|\n'
for f in sorted(glob.glob('/verif/seeded/*/meta.json')):
    x=json.load(open(f)); i=os.path.basename(os.path.dirname(f))
    s+=f"| {i} | {x['property']} | {x['needs']} | {x['what_it_breaks']} | {x.get('caught_by',x['property'])} |\n"
# suites of the last runs of the quick tier, from evidence/*.json
a,b='<!-- suites -->\n','<!-- end suites -->\n'
t=''
for f in sorted(glob.glob('/verif/evidence/P*.json')):
    e=json.load(open(f)); c=e['coverage']; p=os.path.basename(f)[:3]
    for x in c['suites']:
        t+=f"| {p} | {x['name']} | {x['bounds'].replace('|','\\|').replace(chr(10),' ')} | {x['units']} | {x['executions_on_impl']} |\n"
if t.count('\n')>50 and '| P25 |' in t:
    i,j=s.index(a)+len(a),s.index(b)
    s=s[:i]+'| property | suite | bounds | units | executions |\n|---|---|---|---|---|\n'+t+s[j:]
open(d,'w').write(s)
