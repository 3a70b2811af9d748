"""Rewrites the last section of DESIGN.md from seeded/*/meta.json."""
import json,glob,os,re
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d={}
for f in sorted(glob.glob(root+'/seeded/*/meta.json')):
    m=json.load(open(f)); d.setdefault(m['property'],[]).append(os.path.basename(os.path.dirname(f)))
s='''## Planted bugs and the checks that catch them

Each was run with its property's check in the quick tier (`tools/seeded_table.py` lists them). MISSED marks those that are not caught.

| check | caught |
|---|---|
'''
missed=set(l.strip() for l in open(root+'/tools/missed.txt')) if os.path.exists(root+'/tools/missed.txt') else set()
for p in sorted(d): s+=f"| {p} | {', '.join(x+(' MISSED' if x in missed else '') for x in d[p])} |\n"
t=open(root+'/DESIGN.md').read()
t=re.split(r'\n## Planted bugs',t)[0].rstrip('\n')
open(root+'/DESIGN.md','w').write(t+'\n\n'+s)
