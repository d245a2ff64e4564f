#!/usr/bin/env python3
"""Put DESIGN.md together from head.md, checks/*.json, notes.json and tail.md."""
import glob, json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = lambda *a: os.path.join(root, *a)
notes = json.load(open(p('design/notes.json')))
props = [json.loads(l) for l in open(p('properties.jsonl'))]
na = json.load(open(p('not_applicable.json')))
checks = {}
for f in glob.glob(p('checks/*.json')):
    c = json.load(open(f)); checks[c['property']] = c
costs = {}
try:
    costs = json.load(open(p('design/costs.json')))
except FileNotFoundError:
    pass
for id in checks:
    f = p('evidence/%s.json' % id)
    if os.path.exists(f):
        e = json.load(open(f))
        if e.get('tier') == 'quick':
            c = e['coverage']
            costs[id] = [c.get('states'), c.get('queries', c.get('solver_queries')), c.get('solver_s', c.get('solver_seconds')), c.get('traces_validated_against_impl'), e['wall_s']]
json.dump(costs, open(p('design/costs.json'), 'w'), indent=0, sort_keys=True)
out = [open(p('design/head.md')).read(), '\n## 2. Properties\n']
for q in props:
    id = q['id']
    out.append('\n### %s %s\n' % (id, q['title']))
    if id not in checks:
        out.append('\nNot applicable: %s.\n' % na[id]); continue
    n, c = notes[id], checks[id]
    out.append('\n*Decided by* `harness/%s` (%s). %s\n' % (c['package'], ', '.join(h['name'] + (' [thorough]' if h.get('tier') == 'thorough' else '') for h in c['harnesses']), n['how']))
    out.append('\n*Oracle.* %s\n' % n['oracle'])
    out.append('\n*Bounds.* %s *Outside:* %s\n' % (c['bounds'][0].upper() + c['bounds'][1:], c['outside']))
    for a in c.get('assumptions', []):
        out.append('\n*Assumption.* %s.\n' % a)
    out.append('\n*Why tests do not reach it.* %s They cannot cover %s.\n' % (q['why_tests_cant'], n['reach_gap']))
t = open(p('design/tail.md')).read()
t = t.replace('@NA@', '\n'.join('* %s: %s.' % (k, v) for k, v in na.items()))
rows = ['| planted bug | caught by | needs |', '|---|---|---|']
for f in sorted(glob.glob(p('seeded/*/meta.json'))):
    m = json.load(open(f)); rows.append('| %s | %s | %s |' % (os.path.basename(os.path.dirname(f)), m['property'], m['needs']))
t = t.replace('@SEEDS@', '\n'.join(rows))
rows = ['| check | paths | queries | solver s | witnesses run natively | wall s |', '|---|---|---|---|---|---|']
for id in sorted(costs):
    rows.append('| %s | %s |' % (id, ' | '.join(str(round(x, 1) if isinstance(x, float) else x) for x in costs[id])))
t = t.replace('@COST@', '\n'.join(rows))
out.append(t)
open(p('DESIGN.md'), 'w').write(''.join(out))
