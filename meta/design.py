"""Assembles DESIGN.md."""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [R + '/meta', R + '/lib']
import props, registry
checks = next(v for v in vars(registry).values() if isinstance(v, dict) and 'C01' in v)
head = open(R + '/meta/design_head.md').read()
find = json.load(open(R + '/known_findings.json'))['findings']
F = '\n'.join('* ' + f['what'] for f in find)
caught = json.load(open(R + '/meta/caught.json'))
P = []
for p in props.P:
    c = checks.get(p['id'])
    P.append('### %s. %s' % (p['id'], p['title']))
    P.append('Over %s: %s.' % (', '.join(p['quantifier']['over']), p['quantifier']['text']))
    if not c:
        P.append('Not claimed.'); continue
    P.append('*Decided by:* ' + c['rule'])
    mpi = sorted({n for q in c['parts'] if q.get('mpi') for n in q.get('np', [])})
    mt = sorted({n for q in c['parts'] if q.get('mpi') for n in q.get('np_thorough', [])})
    fl = sorted({f for q in c['parts'] for f in q.get('flavours', [])} | {f for q in c['parts'] for f in q.get('thorough_flavours', [])})
    fz = [q for q in c['parts'] if q.get('fuzz')]
    s = 'Built as: %s.' % ', '.join(fl)
    if mpi: s += ' MPI processes: %s (thorough: %s).' % (', '.join(map(str, mpi)), ', '.join(map(str, mt or mpi)))
    if fz: s += ' Thorough also runs libFuzzer on the same laws.'
    P.append(s)
    P.append('*Beyond the tests:* ' + p['why_tests_cant'])
    for k in ('note', 'assumptions'):
        v = c.get(k)
        if v: P.append('*%s:* %s' % ('Note' if k == 'note' else 'Assumptions', v if isinstance(v, str) else ' '.join(v)))
B = ['| planted bug | property | needs | caught by |', '|---|---|---|---|']
for d in sorted(os.listdir(R + '/seeded')):
    m = json.load(open(R + '/seeded/%s/meta.json' % d))
    B.append('| %s | %s | %s | %s |' % (d, m['property'], m['needs'], caught.get(d, 'not caught')))
out = head.replace('@FINDINGS@', F).replace('@PROPERTIES@', '\n\n'.join(P)).replace('@BUGS@', '\n'.join(B))
open(R + '/DESIGN.md', 'w').write(out)
print(len(out))
