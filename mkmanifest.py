#!/usr/bin/env python3
# Regenerates MANIFEST.json from properties.jsonl and the table below.
import json
NOTE = {}
exec(open('/verif/levels.py').read())
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
checks=[]; na=[]
for p in props:
    i=p['id']
    if i in T:
        checks.append({'property':i,'quick_cmd':f'./run.sh check {i} quick','thorough_cmd':f'./run.sh check {i} thorough',
            'technique':T[i][0],'level':'model_checking','level_note':T[i][1]})
    else:
        na.append({'property':i,'reason':'no check yet'})
m={'version':1,'setup_cmd':'./run.sh setup','checks':checks,'not_applicable':na,
   'notes':'No hooks in /repo: the checks drive the public API only. run.sh builds /verif/mc against the working tree of /repo in a scratch directory, then enumerates.'}
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1); open('/verif/MANIFEST.json','a').write('\n')
