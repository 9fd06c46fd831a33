"""writes DESIGN.md from the texts below, the checks' own BOUNDS/ASSUMPTIONS and tools/caught.json (seed -> checks that catch it)
run: PYTHONPATH=/verif:/repo /opt/venv/bin/python tools/design.py"""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
INTRO = open(os.path.join(V, 'tools', 'design_intro.md')).read()
S = {}
cur = None
for line in open(os.path.join(V, 'tools', 'design_props.md')):
    if line.startswith('## C'):
        cur = line.split()[1]
        S[cur] = ''
    elif cur:
        S[cur] += line
P = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
out = [INTRO.rstrip(), '', '# Per property', '']
for p in P:
    i = p['id']
    out += ['## %s %s' % (i, p['title']), '']
    try:
        m = importlib.import_module('checks.' + i.lower())
        out += ['*Explored:* ' + ' '.join(m.BOUNDS.split()) + '.', '']
        if m.ASSUMPTIONS:
            out += ['*Assumed:* ' + '; '.join(m.ASSUMPTIONS) + '.', '']
    except ImportError:
        out += ['(no check)', '']
    out += [S.get(i, '').strip(), '']
c = json.load(open(os.path.join(V, 'tools', 'caught.json')))
out += ['# Planted bugs and what catches them', '',
        'Each line: planted change in `seeded/`, the property it breaks, and whether the quick check of that property catches it.', '',
        '| planted | property | needs | caught by |', '|---|---|---|---|']
for s in sorted(os.listdir(os.path.join(V, 'seeded'))):
    m = json.load(open(os.path.join(V, 'seeded', s, 'meta.json')))
    out.append('| %s | %s | %s | %s |' % (s, m['property'], m['needs'].replace('|', '/'), ', '.join(c.get(s, [])) or 'missed'))
out += ['', open(os.path.join(V, 'tools', 'design_end.md')).read().rstrip(), '']
open(os.path.join(V, 'DESIGN.md'), 'w').write('\n'.join(out))
