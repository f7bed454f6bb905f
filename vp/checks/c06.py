"""C06: fast start units follow their inflexibility profile."""
import hypothesis.strategies as st

import mkt
import refmarket as rm
from core import Part, check

ID = 'C06'
RULE = ('part "probe": one fast start unit in a drawn mode (0..5), time in mode and profile is pulled up and down by a '
        'soft demand; the outputs are compared with the profile; part "market": whole markets with fast start limits, '
        'soft or hard, against the reference model, including removal of the limits.  Non-trivial: a fast start limit '
        'binds')
ASSUMPTIONS = []


def envelope(f):
    """Allowed energy range of a fast start profile, before the unit's own limits."""
    m = f['end_mode']
    if m in (0, 1):
        return 0.0, 0.0
    if m == 2:
        x = f['min'] * f['time'] / f['m2']
        return x, x
    if m == 3:
        return f['min'], 1e9
    if m == 4:
        return f['min'] * (1 - f['time'] / f['m4']), 1e9
    return -1e9, 1e9


@st.composite
def probe(draw):
    n = draw(st.integers(1, 3))
    S = {'regions': ['NSW'], 'interval': draw(st.sampled_from([5, 30])), 'units': [], 'bids': [], 'fast_start': [],
         'demand': {'NSW': 0.0}, 'demand_cost': 20000.0, 'perm': draw(st.integers(0, 20)),
         'past': draw(st.sampled_from([0, 0, 0, 0, 1, 2, 4, 5, 3]))}
    for i in range(n):
        u = 'ABC'[i]
        cap = draw(st.integers(5, 200))
        side = draw(st.sampled_from(['generator', 'generator', 'load']))
        S['units'].append({'unit': u, 'region': 'NSW', 'sides': [side], 'lf': {side: 1.0}})
        S['bids'].append({'unit': u, 'side': side, 'service': 'energy', 'vol': [float(cap)], 'price': [50.0]})
        mode = draw(st.integers(0, 5))
        m2, m4 = draw(st.integers(1, 30)), draw(st.integers(1, 30))
        t = draw(st.integers(0, {2: m2, 4: m4}.get(mode, 40)))
        S['fast_start'].append({'unit': u, 'end_mode': mode, 'time': float(t), 'm2': float(m2), 'm4': float(m4),
                                'min': float(draw(st.integers(0, cap)))})
    if draw(st.booleans()):
        S['fast_start_cost'] = 5e5
    return S


def run_probe(S):
    nt = False
    cap = {b['unit']: b['vol'][0] for b in S['bids']}
    side = {u['unit']: u['sides'][0] for u in S['units']}
    up = {u: 1 if s == 'generator' else -1 for u, s in side.items()}
    for demand in (9000.0, -9000.0):
        m = rm.build(dict(S, demand={'NSW': demand}))
        check(rm.dispatch(m), 'infeasible although every profile is within the unit\'s offer')
        out = rm.Out(S, m)
        for f in S['fast_start']:
            lo, hi = envelope(f)
            u = f['unit']
            e = out.energy(u, side[u])
            expect = min(hi, cap[u]) if demand * up[u] > 0 else max(lo, 0.0)
            check(abs(e - expect) < 1e-3, 'unit in mode %s at %.4f instead of %.4f', f['end_mode'], e, expect)
            nt = nt or f['end_mode'] in (2, 3, 4) and f['min'] > 0
        m.remove_fast_start_constraints()
        check(rm.dispatch(m), 'infeasible after removing the fast start constraints')
        out = rm.Out(S, m)
        for u, c in cap.items():
            c = c if demand * up[u] > 0 else 0.0
            check(abs(out.energy(u, side[u]) - c) < 1e-3, 'fast start limits of %s still apply after their removal', u)
    return {'nontrivial': nt, 'labels': sorted({'mode_%s' % f['end_mode'] for f in S['fast_start']})}


def extra(S, m, ref, out):
    if S.get('fast_start_cost') is None:
        for f in S.get('fast_start') or []:
            lo, hi = envelope(f)
            for s in ('generator', 'load'):
                if (f['unit'], s, 'energy') in out.disp:
                    e = out.energy(f['unit'], s)
                    check(lo - 1e-3 <= e <= hi + 1e-3, '%s in mode %s at %.4f, profile allows [%.4f, %.4f]', f['unit'],
                          f['end_mode'], e, lo, hi)
    return []


def nontrivial(S, ref, out):
    return out is not None and bool(S.get('fast_start')) and mkt.binding(ref, ref.pinned_values, ['fast_start']) > 0


def parts():
    return [
        Part('probe', probe, run_probe, 600, 20000),
        mkt.agree_part('market', 700, 20000, dict(units=(2, 5), fast_start=1.0, ramp=0.3, fs_run=0.5, soft=0.6,
                                                  demand_cost=0.9, fcas=0.1, generic=0.0), nontrivial, extra),
    ]
