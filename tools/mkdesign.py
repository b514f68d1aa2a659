#!/usr/bin/env python3
"""refreshes the tables of DESIGN.md (development tool): text between <!--x--> and <!--/x-->"""
import re, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/tools')
from seedlist import SEEDS
t = open(V + '/DESIGN.md').read()
n = sum(l.startswith('fixed:') for l in open(V + '/KNOWN_FINDINGS'))
rows = ['| id | property | needs | caught by | first |', '|---|---|---|---|---|']
res = json.load(open(V + '/tools/seedresults.json')) if os.path.exists(V + '/tools/seedresults.json') else {}
for s in SEEDS:
    r = res.get(s['id'], {})
    rows.append(f"| {s['id']} | {s['prop']} | {s['needs']} | {', '.join(r.get('caught', []) or ['—'])} | {r.get('first', 'yes')} |")
def put(k, v):
    global t
    v = f'<!--{k}-->{v}<!--/{k}-->'
    if f'@@{k}@@' in t:
        t = t.replace(f'@@{k}@@', v)
    else:
        t = re.sub(f'<!--{k}-->.*?<!--/{k}-->', lambda m: v, t, flags=re.S)
put('NFIX', n)
put('SEEDS', '\n' + '\n'.join(rows) + '\n')
m = V + '/tools/mutations.md'
put('MUT', '\n' + (open(m).read() if os.path.exists(m) else '') + '\n')
open(V + '/DESIGN.md', 'w').write(t)
