"""C21: in a time sequential model each interval starts from the targets of the interval before."""
import copy
import random

import hypothesis.strategies as st

import gen_market as gm
import mkt
import refmarket as rm
from core import Part, check

ID = 'C21'
RULE = ('hypothesis draws a market and a sequence of 2-4 intervals that change its demand, prices, ramp rates and which '
        'units bid; the first interval starts from drawn outputs through create_seed_ramp_rate_parameters, each later one '
        'from the dispatch before it through construct_ramp_rate_parameters, with rows in any order.  The ramp inputs must '
        'be one row per unit (and side) with the starting outputs of the history, and each interval is compared with the '
        'reference model started from the previous targets.  Non-trivial: a ramp limit binds in the second interval or '
        'later')
ASSUMPTIONS = ['a bidirectional unit that bids in an interval bids both of its sides']
GROUPS = ['ramp_up', 'ramp_down', 'bidirectional_ramp_up', 'bidirectional_ramp_down']
rate = st.sampled_from([12.0, 0.0, 60.0, 120.0, 240.0, 600.0, 1200.0])


@st.composite
def case(draw):
    S = draw(gm.scenario(units=(2, 4), ramp=0.0, capacity=0.1, uigf=0.05, fast_start=0.0, generic=0.05, fcas=0.35,
                         joint_ramp=0.0, cont_trap=0.3, reg_trap=0.3, demand_cost=1.0, bdu=0.3, load=0.2, tight=0.2,
                         losses=0.2, fcas_infeasible=0.0, fcas_only=0.0))
    names = [u['unit'] for u in S['units']]
    tot = {}
    for b in S['bids']:
        if b['service'] == 'energy':
            tot[(b['unit'], b['side'])] = sum(b['vol'])
    hist = []
    for u in S['units']:
        if len(u['sides']) == 2:
            lo, hi = -tot[(u['unit'], 'load')], tot[(u['unit'], 'generator')]
        else:
            lo, hi = 0, tot[(u['unit'], u['sides'][0])]
        hist.append([u['unit'], float(draw(st.integers(int(lo), int(hi))))])
    steps = []
    for k in range(draw(st.integers(2, 4))):
        steps.append({'demand': draw(st.integers(0, 130)), 'rot': draw(st.integers(0, 3)),
                      'out': draw(st.lists(st.sampled_from(names), max_size=1)) if len(names) > 1 else [],
                      'ramp': [[u['unit'], s, draw(rate), draw(rate)] for u in S['units'] for s in u['sides']]})
    return {'S': S, 'hist': hist, 'steps': steps, 'shuffle': draw(st.integers(0, 99)),
            'no_service': draw(st.booleans()), 'no_type': draw(st.booleans())}


def interval(S, step):
    T = copy.deepcopy(S)
    T['bids'] = [b for b in T['bids'] if b['unit'] not in step['out']]
    gone = set(step['out'])
    if 'demand' in T:
        T['demand'] = {r: round(d * step['demand'] / 100.0, 2) for r, d in T['demand'].items()}
        T['demand_cost'] = 20000.0
    # rotate the energy price stacks so that the merit order changes
    en = [b for b in T['bids'] if b['service'] == 'energy' and b['side'] == 'generator']
    ps = [b['price'] for b in en]
    for i, b in enumerate(en):
        p = ps[(i + step['rot']) % len(ps)]
        b['price'] = (p + [p[-1]] * len(b['vol']))[:len(b['vol'])]
    for k in ('capacity', 'uigf', 'contingency', 'regulation', 'fcas_max', 'generic_units'):
        if T.get(k):
            T[k] = [q for q in T[k] if q['unit'] not in gone]
            if not T[k]:
                T.pop(k)
                T.pop(k + '_cost', None)
    have = {b['service'] for b in T['bids']}
    region = {u['unit']: u['region'] for u in T['units']}
    if T.get('fcas_req'):
        T['fcas_cost'] = 50000.0
        T['fcas_req'] = [q for q in T['fcas_req'] if any(
            b['service'] in rm.aslist(q['service']) and region[b['unit']] in q['regions'] for b in T['bids'])]
        if not T['fcas_req']:
            T.pop('fcas_req')
            T.pop('fcas_cost', None)
    for k in ('generic', 'generic_units', 'generic_regions', 'generic_inters', 'generic_cost'):
        T.pop(k, None)
    live = {region[b['unit']] for b in T['bids']} | {r for q in T.get('inter') or [] for r in (q['from'], q['to'])}
    if 'demand' in T:
        T['demand'] = {r: d for r, d in T['demand'].items() if r in live}
        if not T['demand']:
            T.pop('demand')
            T.pop('demand_cost', None)
    return T


def run(c):
    import pandas as pd
    from nempy import time_sequential as ts
    rnd = random.Random(c['shuffle'])
    S = c['S']
    sides = {u['unit']: u['sides'] for u in S['units']}
    start = dict(map(tuple, c['hist']))
    labels, nt, last = set(), False, None
    explicit = any(s != 'generator' for v in sides.values() for s in v)
    for k, step in enumerate(c['steps']):
        T = interval(S, step)
        if not any(b['service'] == 'energy' for b in T['bids']):
            break
        rates = pd.DataFrame([q for q in step['ramp']], columns=['unit', 'dispatch_type', 'ramp_up_rate', 'ramp_down_rate'])
        T['explicit_types'] = explicit or not c['no_type']
        if not T['explicit_types']:
            rates = rates.drop(columns='dispatch_type')
        if c['shuffle']:
            rates = rates.sample(frac=1.0, random_state=rnd.randrange(1000))
        if k == 0:
            h = pd.DataFrame(c['hist'], columns=['unit', 'initial_output'])
            if c['shuffle']:
                h = h.sample(frac=1.0, random_state=rnd.randrange(1000))
            ramp = ts.create_seed_ramp_rate_parameters(h, rates)
        else:
            d = last
            if c['shuffle']:
                d = d.sample(frac=1.0, random_state=rnd.randrange(1000))
            if c['no_service'] and (d['service'] == 'energy').all():
                d = d.drop(columns='service')
                labels.add('default service')
            if not T['explicit_types'] and c['no_service']:
                d = d.drop(columns='dispatch_type')
            before = d.copy()
            ramp = ts.construct_ramp_rate_parameters(d, rates)
            check(before.equals(d), 'construct_ramp_rate_parameters changed the dispatch table it was given')
        want = {(u, s): (start.get(u, 0.0), a, b) for u, s, a, b in step['ramp']}
        got = {}
        for r in ramp.to_dict('records'):
            key = (r['unit'], r.get('dispatch_type', 'generator'))
            check(key not in got, 'interval %d: two ramp rows for %s', k, key)
            got[key] = (r['initial_output'], r['ramp_up_rate'], r['ramp_down_rate'])
        check(set(got) == set(want), 'interval %d: ramp rows for %s, should be for %s', k, sorted(got), sorted(want))
        for key, w in want.items():
            check(all(abs(a - b) < 1e-6 for a, b in zip(got[key], w)),
                  'interval %d: %s starts from and ramps at %s, should be %s', k, key, got[key], w)
        T['ramp'] = [{'unit': u, 'side': s, 'init': start.get(u, 0.0), 'up': a, 'down': b} for u, s, a, b in step['ramp']]
        F = rm.frames(T)
        F['ramp'] = ramp
        m = rm.build(T, F)
        ref, out, v = rm.agree(T, m=m)
        labels.add('interval %d' % k)
        if out is None:
            labels.add('infeasible')
            break
        if k and mkt.binding(ref, ref.pinned_values, GROUPS):
            nt = True
        if any(len(s) == 2 for s in sides.values()):
            labels.add('bidirectional')
        if step['out']:
            labels.add('unit without bids')
        last = m.get_unit_dispatch()
        bid = {b['unit'] for b in T['bids'] if b['service'] == 'energy'}
        start = {u: out.energy(u, None if len(s) == 2 else s[0]) for u, s in sides.items() if u in bid}
    return {'nontrivial': nt, 'labels': sorted(labels)}


def parts():
    return [Part('sequence', case, run, 500, 20000)]
