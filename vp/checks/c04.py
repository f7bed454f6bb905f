"""C04: no unit is dispatched beyond what it offered, its capacity limit or its generation forecast."""
import hypothesis.strategies as st

import gen_market as gm
import mkt
import refmarket as rm
from core import Part, check

ID = 'C04'
RULE = ('hypothesis draws markets with multi-band bids (empty, tiny and equal-priced bands included), bid capacity '
        'limits and UIGF limits, soft or hard; reported dispatch is compared with the offered volumes and limits and '
        'with the reference least cost.  Non-trivial: some offer is exhausted or some capacity/UIGF limit binds')
ASSUMPTIONS = ['bands below 0.0001 MW are not offered (nempy ignores them)']


def extra(S, m, ref, out):
    offered = {}
    for b in S['bids']:
        k = (b['unit'], b['side'], b['service'])
        offered[k] = offered.get(k, 0.0) + sum(v for v in b['vol'] if v >= rm.MIN_BID)
    for k, v in out.disp.items():
        check(v >= -1e-4, '%s is dispatched at %s', k, v)
        check(v <= offered.get(k, 0.0) + 1e-4, '%s is dispatched at %s, offered %s', k, v, offered.get(k, 0.0))
    for key, cost, group, side in (('capacity', 'capacity_cost', 'unit_bid_capacity', None),
                                   ('uigf', 'uigf_cost', 'uigf_capacity', 'generator')):
        total = 0.0
        for q in S.get(key) or []:
            e = out.energy(q['unit'], side or q['side'])
            total += max(0.0, e - q['cap'])
            if S.get(cost) is None:
                check(e <= q['cap'] + 1e-3, '%s %s dispatched at %.4f above its %s limit %s', q['unit'],
                      side or q['side'], e, key, q['cap'])
        if S.get(key) and S.get(cost) is not None:
            deg = m.get_elastic_constraints_violation_degree(group)
            check(abs(deg - total) < 1e-3, '%s limits exceeded by %.4f, %.4f reported', key, total, deg)
    return []


def nontrivial(S, ref, out):
    if out is None:
        return False
    if mkt.binding(ref, ref.pinned_values, ['unit_bid_capacity', 'uigf_capacity']):
        return True
    return any(abs(out.disp[k] - sum(v for b in S['bids'] if (b['unit'], b['side'], b['service']) == k
                                     for v in b['vol'])) < 1e-3 for k in out.disp)


@st.composite
def merit(draw):
    """One region, many generators, awkward volumes and prices."""
    n = draw(st.integers(1, 5))
    S = {'regions': ['NSW'], 'interval': 5, 'units': [], 'bids': [], 'perm': draw(st.integers(0, 50)),
         'past': draw(st.sampled_from([0, 0, 0, 0, 1, 2, 4, 5, 3])),
         'demand_cost': 2e4}
    tot = 0.0
    for i in range(n):
        u = 'U%d' % i
        lf = draw(st.sampled_from([1.0, 0.9, 1.1, 0.9731]))
        S['units'].append({'unit': u, 'region': 'NSW', 'sides': ['generator'], 'lf': {'generator': lf}})
        k = draw(st.integers(1, 10))
        vol = [draw(st.one_of(st.integers(0, 200).map(float), st.floats(0.001, 50).map(lambda x: round(x, 3)),
                              st.sampled_from([0.0, 0.00005, 0.0002]))) for _ in range(k)]
        price = sorted(draw(st.integers(-1000, 15000)) / draw(st.sampled_from([1.0, 10.0])) for _ in range(k))
        S['bids'].append({'unit': u, 'side': 'generator', 'service': 'energy', 'vol': vol, 'price': price})
        tot += sum(vol)
    if not any(v >= rm.MIN_BID for b in S['bids'] for v in b['vol']):
        S['bids'][0]['vol'][0] = 10.0
        tot += 10
    if draw(st.booleans()):
        S['capacity'] = [{'unit': u['unit'], 'side': 'generator', 'cap': float(draw(st.integers(0, 300)))}
                         for u in S['units'] if draw(st.booleans())]
    if draw(st.booleans()):
        S['uigf'] = [{'unit': u['unit'], 'cap': float(draw(st.integers(0, 300)))}
                     for u in S['units'] if draw(st.booleans())]
    # a unit without any usable band has no variable to constrain
    dead = {b['unit'] for b in S['bids'] if not any(v >= rm.MIN_BID for v in b['vol'])}
    for k in ('capacity', 'uigf'):
        if k in S:
            S[k] = [q for q in S[k] if q['unit'] not in dead]
            if not S[k]:
                del S[k]
            elif draw(st.booleans()):
                S[k + '_cost'] = 5000.0
    S['demand'] = {'NSW': round(tot * draw(st.integers(0, 115)) / 100.0, 3)}
    return S


def run(S):
    m = rm.build(S)
    ref, out, v = rm.agree(S, m=m)
    if out is not None:
        extra(S, m, ref, out)
    return {'nontrivial': nontrivial(S, ref, out), 'labels': mkt.labels(S, ref, out)}


def parts():
    return [
        mkt.agree_part('limits', 900, 30000, dict(
            units=(2, 5), bands=(1, 4), capacity=0.8, uigf=0.6, soft=0.5, load=0.25, bdu=0.25, demand_cost=0.8,
            tight=0.3, fcas=0.15, inter=0.4, generic=0.0), nontrivial, extra),
        Part('merit_order', merit, run, 500, 15000),
    ]
