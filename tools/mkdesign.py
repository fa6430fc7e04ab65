#!/usr/bin/env python3
# Fills the generated tables of DESIGN.md from known-findings.json and seeded/*/meta.json + tools/catches.json
import json,glob,os,re
s=open('/verif/DESIGN.md').read()
fx='\n'.join('* '+f['what'].replace('fixed: property=','') for f in json.load(open('/verif/known-findings.json')) if f['status']=='fixed')
c=json.load(open('/verif/tools/catches.json')) if os.path.exists('/verif/tools/catches.json') else {}
rows=['| planted bug | property | needs | caught by |','|---|---|---|---|']
for m in sorted(glob.glob('/verif/seeded/*/meta.json')):
    i=os.path.basename(os.path.dirname(m)); d=json.load(open(m))
    rows.append(f"| {i} | {d['property']} | {d['needs']} | {c.get(i,'?')} |")
mx='\n'.join(rows)
def put(s,tag,body):
    b=f'<!-- {tag} -->'; e=f'<!-- /{tag} -->'
    s=s.replace('@'+tag+'@',b+'\n'+e)
    return re.sub(re.escape(b)+'.*?'+re.escape(e),lambda _:b+'\n'+body+'\n'+e,s,flags=re.S)
open('/verif/DESIGN.md','w').write(put(put(s,'FIXES',fx),'MATRIX',mx))
