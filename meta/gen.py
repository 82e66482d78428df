#!/usr/bin/env python3
"""Writes properties.jsonl, MANIFEST.json and crates.map from meta/props_*.py (one source of truth)."""
import json, glob, os, runpy
here=os.path.dirname(os.path.abspath(__file__)); root=os.path.dirname(here)
props=[]
for f in sorted(glob.glob(here+'/props_*.py')): props+=runpy.run_path(f)['PROPS']
na=runpy.run_path(here+'/not_applicable.py')['NA'] if os.path.exists(here+'/not_applicable.py') else []
ids=[p['id'] for p in props+na]; assert len(set(ids))==len(ids)
def prop(p):
    assert len(p['title'])<=80,(p['id'],len(p['title']))
    return dict(id=p['id'],title=p['title'],statement=p['statement'],
      quantifier=dict(over=p['over'],text=p['forall']),why_tests_cant=p['why'],
      anchors=dict(files=p['files'],mechanism=[dict(name=n,where=w) for n,w in p['mech']],observe_at=p.get('observe',[]),hook_needed=p.get('hook')))
with open(root+'/properties.jsonl','w') as o:
    for p in sorted(props+na,key=lambda p:p['id']): o.write(json.dumps(prop(p))+'\n')
with open(root+'/crates.map','w') as o:
    o.write('# property harness-crate\n')
    for p in sorted(props,key=lambda p:p['id']): o.write(f"{p['id']} {p['crate']}\n")
m=dict(version=1,setup_cmd='./setup.sh',checks=[dict(property=p['id'],quick_cmd=f"./run.sh {p['id']}",
  thorough_cmd=f"VERIF_TIER=thorough ./run.sh {p['id']}",evidence_file=f"evidence/{p['id']}.json",technique=p['tech'],
  level=p.get('level','exploration'),level_note=p['note']) for p in sorted(props,key=lambda p:p['id'])],
  not_applicable=[dict(property=p['id'],reason=p['reason']) for p in na],
  notes='All checks are generated-input search (own tape-based property-testing engine with shrinking in harness/pbt) against independent oracles. A violation prints its minimal case and writes replays/<id>-<sub>.txt, replayed with ./run.sh <id> replay <file>. No hooks in /repo are used.')
hk=here+'/hooks.json'
if os.path.exists(hk): m['hooks']=json.load(open(hk))
json.dump(m,open(root+'/MANIFEST.json','w'),indent=1); open(root+'/MANIFEST.json','a').write('\n')
import subprocess
o=open(root+'/DESIGN.md','w'); o.write(open(here+'/design_head.md').read()); o.write('\n## Properties\n')
for p in sorted(props,key=lambda p:p['id']):
    o.write(f"\n### {p['id']} {p['title']}\n\n* Decided by: {p['tech']} (harness/{p['crate']}, level {p.get('level','exploration')}).\n* Explored: {p['forall']}.\n* Oracle and bounds: {p['note']}\n* Beyond the tests: {p['why']}\n")
    if p.get('cost'): o.write(f"* Cost: {p['cost']}\n")
for p in na: o.write(f"\n### {p['id']} {p['title']} (not claimed)\n\n{p['reason']}\n")
o.write('\n## Defects found in /repo\n\nRepaired ones are `fix:` commits; the rest are known findings.\n\n')
for l in open(root+'/known_findings.txt'):
    if l.startswith(('fixed:','finding:')): o.write('* '+l)
o.write('\n## Planted bugs\n\nEach was written from a property text and the code, built, passes the tests, and has a demonstration.\n"Caught" is the result of the quick check of its property.\n\n| bug | property | what it breaks | needs | quick check |\n|---|---|---|---|---|\n')
res=json.load(open(here+'/seed_results.json')) if os.path.exists(here+'/seed_results.json') else {}
for d in sorted(glob.glob(root+'/seeded/*/meta.json')):
    k=os.path.basename(os.path.dirname(d)); j=json.load(open(d)); o.write(f"| {k} | {j['property']} | {j['what_it_breaks']} | {j['needs']} | {res.get(k,'?')} |\n")
t=here+'/design_tail.md'
if os.path.exists(t): o.write('\n'+open(t).read())
o.close()
print(len(props),'claimed',len(na),'n/a')
