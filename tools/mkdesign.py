#!/usr/bin/env python3
"""Generate DESIGN.md from design/*.md, props.py, known_findings.jsonl and the planted bugs."""
import sys, json, os, glob
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R)
import props
rd = lambda p: open(os.path.join(R, p)).read()
P = {json.loads(l)['id']: json.loads(l) for l in rd('properties.jsonl').splitlines()}
X, cur = {}, None
for l in rd('design/props.md').splitlines(True):
    if l.startswith('@'):
        cur = l[1:].strip(); X[cur] = ''
    elif cur:
        X[cur] += l
out = [rd('design/head.md').rstrip() + '\n\n## The properties, one by one\n\n']
out.append('The statements are in `properties.jsonl`; here is how each is decided. "Bounds" are those of the quick tier; entries marked *thorough* run in the thorough tier only.\n')
for pid in props.PROPS:
    assert X.get(pid, '').strip(), pid
    out.append('\n### %s: %s\n\n' % (pid, P[pid]['title']))
    out.append(X[pid].strip() + '\n\nBounds:\n\n')
    for e in props.PROPS[pid]['entries']:
        out.append('- `%s`%s: %s\n' % (e['entry'], ' (*thorough*)' if e.get('thorough_only') else '', e['bounds']))
fixes = []
for l in rd('known_findings.jsonl').splitlines():
    if l.startswith('fixed: property='):
        p, c, w = l[len('fixed: property='):].split(' ', 2)
        fixes.append('- %s (`%s`): %s' % (p, c, w))
res = {}
for l in rd('design/seeds.txt').splitlines():
    if ':' in l:
        k, v = l.split(':', 1); res[k.strip()] = v.strip()
seeds = ['| id | what it breaks | needs | result |', '|---|---|---|---|']
for d in sorted(glob.glob(os.path.join(R, 'seeded', '*')) + glob.glob(os.path.join(R, 'planted', '*')), key=os.path.basename):
    m = json.load(open(os.path.join(d, 'meta.json'))); i = os.path.basename(d)
    f = lambda s: s.replace('|', '\\|').replace('\n', ' ')
    seeds.append('| %s | %s | %s | %s |' % (i, f(m['what_it_breaks']), f(m['needs']), f(res.get(i, '?'))))
t = rd('design/tail.md').replace('FIXES', '\n'.join(fixes)).replace('SEEDS', '\n'.join(seeds))
open(os.path.join(R, 'DESIGN.md'), 'w').write(''.join(out) + '\n' + t)
