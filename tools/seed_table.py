#!/usr/bin/env python3
# writes the table of planted bugs into DESIGN.md (between the markers)
import json,glob,os,re
os.chdir(os.path.join(os.path.dirname(__file__),'..'))
rows=['| planted bug | property, caught by (quick) | needs |','|---|---|---|']
for f in sorted(glob.glob('seeded/*/meta.json')):
    m=json.load(open(f)); rows.append(f"| {f.split('/')[1]} | {m['property']} | {m['needs'].strip()} |".replace('\n',' '))
s=open('DESIGN.md').read()
a,b='<!-- seeds -->','<!-- /seeds -->'
s=re.sub(re.escape(a)+'.*?'+re.escape(b),lambda _:a+'\n'+'\n'.join(rows)+'\n'+b,s,flags=re.S)
open('DESIGN.md','w').write(s)
