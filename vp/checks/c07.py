"""C07: FCAS enablement respects the unit's trapezium jointly with its energy target."""
import hypothesis.strategies as st

import gen_market as gm
import mkt
import refmarket as rm
from core import Part, check

ID = 'C07'
RULE = ('part "probe": one generator or load with drawn FCAS trapeziums (contingency and regulation), SCADA ramp rates '
        'and maximum availabilities, a fixed energy target and an unlimited soft FCAS requirement for one service: its '
        'enablement is compared with the height of the trapezium at that target; parts "market*": whole markets with '
        'all FCAS limits (bidirectional units included) against the reference model, and reported FCAS availability '
        'against the largest enablement that keeps the unit within its limits.  Non-trivial: an FCAS limit binds')
ASSUMPTIONS = ['the flat top of a trapezium is enforced only where a maximum availability is set (documented split of '
               'the setters)', 'contingency offers of bidirectional units carry the generator tag']
GROUPS = ['fcas_max_availability', 'joint_ramping_raise_reg', 'joint_ramping_lower_reg', 'joint_ramping_raise_reg_bdu',
          'joint_ramping_lower_reg_bdu', 'joint_capacity', 'energy_and_regulation_capacity']


def height(q, e):
    if e < q['emin'] - 1e-9 or e > q['emax'] + 1e-9:
        return None
    h = float('inf')     # the top of the trapezium is a separate limit (maximum availability)
    if q['low'] > q['emin']:
        h = min(h, (e - q['emin']) * q['max'] / (q['low'] - q['emin']))
    if q['emax'] > q['high']:
        h = min(h, (q['emax'] - e) * q['max'] / (q['emax'] - q['high']))
    return max(h, 0.0)


@st.composite
def probe(draw):
    side = draw(st.sampled_from(['generator', 'load']))
    sv = draw(st.sampled_from(gm.CONT + gm.REG))
    cap = draw(st.integers(20, 200))
    pts = sorted(draw(st.integers(0, cap)) for _ in range(4))
    offer = draw(st.integers(1, 60))
    mx = draw(st.integers(1, 60))
    q = {'unit': 'A', 'side': side, 'service': sv, 'max': float(mx), 'emin': float(pts[0]), 'low': float(pts[1]),
         'high': float(pts[2]), 'emax': float(pts[3])}
    e = draw(st.integers(pts[0], pts[3]))
    S = {'regions': ['NSW'], 'interval': draw(st.sampled_from([5, 30])), 'perm': draw(st.integers(0, 9)),
         'past': draw(st.sampled_from([0, 0, 0, 0, 1, 2, 4, 5, 3])),
         'units': [{'unit': 'A', 'region': 'NSW', 'sides': [side], 'lf': {side: 1.0}}],
         'bids': [{'unit': 'A', 'side': side, 'service': 'energy', 'vol': [float(cap)], 'price': [20.0]},
                  {'unit': 'A', 'side': side, 'service': sv, 'vol': [float(offer)], 'price': [5.0]}],
         'demand': {'NSW': float(e if side == 'generator' else -e)},
         'fcas_req': [{'set': 'F', 'service': sv, 'regions': ['NSW'], 'volume': 500.0, 'type': '>='}],
         'fcas_cost': 5000.0}
    S['contingency' if sv in gm.CONT else 'regulation'] = [q]
    if draw(st.booleans()):
        S['fcas_max'] = [{'unit': 'A', 'side': side, 'service': sv, 'max': float(draw(st.integers(0, 60)))}]
    if sv in gm.REG and draw(st.booleans()):
        d = lambda: float(draw(st.integers(0, 40)) * 60 / S['interval'])
        S['joint_ramp'] = [{'unit': 'A', 'init': float(e), 'up': d(), 'down': d()}]
    return S


def run_probe(S):
    m = rm.build(S)
    check(rm.dispatch(m), 'infeasible although the energy target is inside the trapezium')
    out = rm.Out(S, m)
    sv, side = S['fcas_req'][0]['service'], S['units'][0]['sides'][0]
    q = (S.get('contingency') or S.get('regulation'))[0]
    e = abs(S['demand']['NSW'])
    h = height(q, e)
    limit = min(h, S['bids'][1]['vol'][0])
    labels = [sv, side]
    if S.get('fcas_max'):
        limit = min(limit, S['fcas_max'][0]['max'])
    if S.get('joint_ramp'):
        j = S['joint_ramp'][0]
        rate = j['up'] if sv == 'raise_reg' else j['down']
        limit = min(limit, rate * S['interval'] / 60.0)
        labels.append('joint_ramp')
    got = out.disp[('A', side, sv)]
    check(abs(out.energy('A', side) - e) < 1e-4, 'energy target %s not met', e)
    check(abs(got - limit) < 1e-3, '%s enabled for %s at %.4f, its limits allow %.4f at an energy target of %s', side, sv,
          got, limit, e)
    return {'nontrivial': limit < S['bids'][1]['vol'][0], 'labels': labels}


def availability(S, m, ref, out):
    """Reported availability = most the service could be raised to, all else equal, within the unit's FCAS limits."""
    if not any(S.get(k) for k in ('fcas_max', 'joint_ramp', 'contingency', 'regulation')):
        return []
    if not any(ref.sets.get(g) for g in GROUPS):
        return []
    col = {}
    for b, cols in ref.bid_cols:
        for c in cols:
            col[c] = (b['unit'], b['side'], b['service'])
    room = {}
    soft = False
    for g in GROUPS:
        for k, typ, label, cost in ref.sets.get(g, []):
            d, lo, hi, _ = ref.lp.rows[k]
            x = rm.exact_row(ref, out, k)
            if x > hi + 1e-6 or x < lo - 1e-6:
                soft = True
            for key in {col[n] for n in d if n in col}:
                if key[2] == 'energy':
                    continue
                c = next(v for n, v in d.items() if col.get(n) == key)
                r = float('inf')
                if abs(c) >= 1e-5:
                    if typ == '<=' and c > 0:
                        r = max(0.0, hi - x) / c
                    elif typ == '>=' and c < 0:
                        r = max(0.0, x - lo) / -c
                room[key] = min(room.get(key, float('inf')), r)
    if soft:
        return []
    got = {}
    a = m.get_fcas_availability()
    for u, s, v in zip(a['unit'], a['service'], a['availability']):
        got.setdefault((u, s), []).append(v)
    want = {}
    for (u, side, s), r in room.items():
        want.setdefault((u, s), []).append(out.disp[(u, side, s)] + r)
    check(set(got) == set(want), 'availability reported for %s, expected for %s', sorted(got), sorted(want))
    for k in want:
        w, h = sorted(want[k]), sorted(got[k])
        check(len(w) == len(h), 'availability of %s: %s, expected %s', k, h, w)
        for p, q in zip(w, h):
            check(p == q or abs(p - q) < 1e-3 * max(1.0, abs(p)), 'availability of %s: %s, expected %s', k, h, w)
    return ['availability_checked']


def nontrivial(S, ref, out):
    return out is not None and mkt.binding(ref, ref.pinned_values, GROUPS) > 0


def parts():
    base = dict(units=(1, 4), regions=(1, 2), fcas=1.0, fcas_max=0.5, joint_ramp=0.6, cont_trap=0.8, reg_trap=0.8, reg=0.8,
                soft=0.5, demand_cost=0.9, load=0.25, bdu=0.0, inter=0.3, generic=0.0, fast_start=0.0, fs_run=0.3,
                ramp=0.2, fcas_infeasible=0.4)
    return [
        Part('probe', probe, run_probe, 900, 25000),
        mkt.agree_part('market', 500, 15000, base, nontrivial, availability),
        mkt.agree_part('market_load', 300, 8000, dict(base, load=0.8, joint_ramp=0.9), nontrivial, availability),
        mkt.agree_part('market_bidirectional', 500, 15000, dict(base, bdu=0.8, load=0.0), nontrivial, availability),
        # few, heavily constrained batteries: the slopes of their trapeziums are shared by both sides
        mkt.agree_part('batteries', 300, 8000, dict(base, units=(1, 2), regions=(1, 1), bdu=1.0, load=0.0, reg=1.0,
                                                    cont_trap=1.0, reg_trap=0.3, joint_ramp=0.3, fcas_max=0.2, ramp=0.1,
                                                    big=0.0, inter=0.0), nontrivial, availability),
    ]
