"""Writes properties.jsonl and MANIFEST.json from one table (run by hand after editing; both outputs are committed)."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = 'src/nempy/markets.py'
B = 'src/nempy/spot_market_backend/'
H = 'src/nempy/historical_inputs/'
TESTS = 'The existing tests (mostly docstring examples) run a handful of small fixed markets; '

P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe, state=(), technique='', note=''):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mechanism], observe_at=observe,
                               hook_needed=None), technique=technique, note=note))


exec(open(os.path.join(ROOT, 'tools', 'props.py')).read())

TRUST = 'Search over generated inputs, not proof; trusts the oracle in vp/ (%s), HiGHS/numpy/pandas and the generators\' domain. '

with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for p in P:
        q = {k: v for k, v in p.items() if k not in ('technique', 'note')}
        assert len(q['title']) <= 80, (len(q['title']), q['title'])
        f.write(json.dumps(q) + '\n')

man = {
    'version': 1,
    'setup_cmd': './setup.sh',
    'checks': [{
        'property': p['id'],
        'quick_cmd': './run_check.sh ' + p['id'],
        'thorough_cmd': 'VERIF_TIER=thorough ./run_check.sh ' + p['id'],
        'evidence_file': 'evidence/%s.json' % p['id'],
        'technique': p['technique'],
        'level': 'exploration',
        'level_note': TRUST % ('vp/checks/%s.py' % p['id'].lower()) + p['note'],
    } for p in P if os.path.exists(os.path.join(ROOT, 'vp', 'checks', p['id'].lower() + '.py'))],
    'not_applicable': NA,
    'notes': 'No hooks in /repo: every check drives the public API.  Seed from VERIF_SEED, depth from VERIF_TIER.  '
             'Exit 3 means no verdict (harness error).  Replay: ./run_check.sh <ID> --replay FILE',
}
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1)
    f.write('\n')
print(len(P), 'properties,', len(man['checks']), 'checks')

# DESIGN.md: template plus the lists kept elsewhere
with open(os.path.join(ROOT, 'tools', 'DESIGN.tpl.md')) as f:
    t = f.read()
with open(os.path.join(ROOT, 'known_findings.json')) as f:
    fixed = json.load(f)['fixed']
res = {}
rp = os.path.join(ROOT, 'tools', 'bug_results.txt')
if os.path.exists(rp):
    for line in open(rp):
        b, c, v = line.split()[:3]
        res[(b, c)] = v
rows = ['| bug | property | needs | what it breaks | result |', '|---|---|---|---|---|']
sd = os.path.join(ROOT, 'seeded')
for b in sorted(os.listdir(sd)):
    with open(os.path.join(sd, b, 'meta.json')) as f:
        m = json.load(f)
    got = ', '.join('%s %s' % (c, {'rc=1': 'catches it', 'rc=0': 'misses it'}.get(v, v))
                    for (x, c), v in sorted(res.items()) if x == b)
    rows.append('| %s | %s | %s | %s | %s |' % (b, m['property'], m['needs'], m['what_it_breaks'], got))
t = t.replace('@FIXES@', '\n'.join('* ' + x[len('fixed: property='):] for x in fixed)).replace('@BUGS@', '\n'.join(rows))
with open(os.path.join(ROOT, 'DESIGN.md'), 'w') as f:
    f.write(t)
