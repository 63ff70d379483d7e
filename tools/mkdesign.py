#!/usr/bin/env python3
"""Fills the generated parts of DESIGN.md from lib/config.py, properties.jsonl and seeded/*/meta.json."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/lib')
import config
props = {}
for l in open(V + '/properties.jsonl'):
    d = json.loads(l); props[d['id']] = d
out = []
for k, v in sorted(config.CHECKS.items()):
    runs = '; '.join('%s (%s): %d cases quick, %d thorough' % (r['bin'], r['variant'], r['cases'][0], r['cases'][1]) for r in v['runs'])
    out.append('### %s %s\n\n*Oracle.* %s\n\n*Workload.* %s.\n\n*Runs.* %s.\n' % (k, props[k]['title'], v['note'], v['rule'].replace('; ' + config.SAN, '').rstrip('.'), runs))
seeds = ['| planted bug | property | needs |', '|---|---|---|']
S = V + '/seeded'
for d in sorted(os.listdir(S)) if os.path.isdir(S) else []:
    m = json.load(open('%s/%s/meta.json' % (S, d)))
    seeds.append('| %s | %s | %s |' % (d, m['property'], m['needs'].replace('|', '/')))
t = open(V + '/DESIGN.md').read()
t = re.sub(r'(<!-- begin generated -->\n).*?(<!-- end generated -->)', lambda m: m.group(1) + '\n'.join(out) + m.group(2), t, flags=re.S)
t = re.sub(r'(<!-- begin seeds -->\n).*?(<!-- end seeds -->)', lambda m: m.group(1) + '\n'.join(seeds) + '\n' + m.group(2), t, flags=re.S)
open(V + '/DESIGN.md', 'w').write(t)
