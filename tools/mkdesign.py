"""Write DESIGN.md: prose kept here, bounds from the check modules, planted bugs from seeded/ and tools/seed_results.txt."""
import importlib.util, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, V + '/checks']
HEAD = open(V + '/tools/design_head.md').read()
TAIL = open(V + '/tools/design_tail.md').read()
HOW, cur = {}, None
for l in open(V + '/tools/design_how.md'):
    if l.startswith('# P'):
        cur = l[2:].strip()
        HOW[cur] = ''
    elif cur:
        HOW[cur] += l
out = [HEAD.rstrip() + '\n']
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
out.append('## Properties\n')
for p in props:
    m = None
    path = '%s/checks/%s.py' % (V, p['id'].lower())
    spec = importlib.util.spec_from_file_location('c_' + p['id'], path)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    q, t = m.instances('quick'), m.instances('thorough')
    out.append('### %s %s\n' % (p['id'], p['title']))
    out.append(HOW[p['id']].strip() + '\n')
    out.append('- Bounds: %s.' % m.BOUNDS)
    out.append('- Outside: %s.' % m.OUTSIDE)
    if getattr(m, 'ASSUMPTIONS', None):
        out.append('- Assumes: %s.' % '; '.join(m.ASSUMPTIONS))
    out.append('- %d harness instances (thorough: %d).\n' % (len(q), len(t)))
out.append(TAIL.rstrip() + '\n')
res = {}
for l in open(V + '/tools/seed_results.txt'):
    f = l.rstrip('\n').split('|')
    if len(f) >= 2:
        res[f[0].strip()] = [x.strip() for x in f[1:]]
out.append('## Planted bugs\n')
out.append('Each was written from the property text and the code, confirmed in a scratch copy (builds, passes the tests, its demonstration fails with it and passes without), and run with `tools/runseeds.py`. '
           '"First missed" means that the check was strengthened because of it; the note says how.\n')
out.append('| bug | property | needs | quick check |')
out.append('|---|---|---|---|')
for s in sorted(os.listdir(V + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (V, s)))
    r = res.get(s, ['not run'])
    out.append('| %s | %s | %s | %s |' % (s, m['property'], m['needs'].replace('|', '/'), '; '.join(x for x in r if x)))
open(V + '/DESIGN.md', 'w').write('\n'.join(out) + '\n')
print(len('\n'.join(out)), 'characters')
