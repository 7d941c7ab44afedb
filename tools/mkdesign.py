#!/usr/bin/env python3
"""DESIGN.md = design_head.md + rules of every property (from gsv's sources) + design_notes.json + planted bugs + design_tail.md"""
import json,re,os,runpy
here=os.path.dirname(os.path.abspath(__file__)); V=os.path.dirname(here)
na=re.search(r"na=\{.*?\n\}",open(here+'/mkmanifest.py').read(),re.S).group(0)
ns={}; exec(na,ns)
notes=json.load(open(here+'/design_notes.json')) if os.path.exists(here+'/design_notes.json') else {}
o=open(here+'/design_head.md').read().rstrip()+'\n\n## 4. Properties\n\n'
for l in open(V+'/properties.jsonl'):
    p=json.loads(l); i=p['id']
    o+='### %s %s\n\n'%(i,p['title'])
    f=V+'/gsv/%s.go'%i.lower()
    if os.path.exists(f):
        o+='Decided by these rules:\n\n'
        for r in re.findall(r'c\.Rule\(("(?:[^"\\]|\\.)*")',open(f).read()):
            r=json.loads(r); a,b=r.split(':',1); o+='* **%s**:%s\n'%(a,b)
    elif i in ns['na']: o+='Not applicable: %s.\n'%ns['na'][i]
    else: o+='The check is not finished.\n'
    if i in notes: o+='\n'+notes[i].strip()+'\n'
    o+='\n'
o+='## 5. Planted bugs\n\n`seeded/<id>`; "caught" is the verdict of the check of the broken property.\n\n| bug | property | breaks | caught by |\n|---|---|---|---|\n'
cm=json.load(open(here+'/caught.json')) if os.path.exists(here+'/caught.json') else {}
for d in sorted(os.listdir(V+'/seeded')) if os.path.isdir(V+'/seeded') else []:
    m=json.load(open(V+'/seeded/'+d+'/meta.json'))
    o+='| %s | %s | %s | %s |\n'%(d,m['property'],m['what_it_breaks'],', '.join(cm.get(d,['?'])) or 'none')
o+='\n'+open(here+'/design_tail.md').read()
open(V+'/DESIGN.md','w').write(o)
