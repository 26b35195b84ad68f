# Fills the seeded-bug table of DESIGN.md from seeded/*/meta.json.
import json,glob,os,re
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows=['| bug | property | needs | what it breaks | caught by |','|---|---|---|---|---|']
for d in sorted(glob.glob(here+'/seeded/*')):
    m=json.load(open(d+'/meta.json'))
    rows.append('| %s | %s | %s | %s | %s |'%(os.path.basename(d),m['property'],m['needs'],m['what_it_breaks'],m.get('caught_by','check %s, concrete failing input and failed obligation'%m['property'])))
p=here+'/DESIGN.md'; s=open(p).read()
s=re.sub(r'<!-- SEEDED -->.*<!-- /SEEDED -->',lambda _:'<!-- SEEDED -->\n'+'\n'.join(rows)+'\n<!-- /SEEDED -->',s,flags=re.S)
open(p,'w').write(s)
