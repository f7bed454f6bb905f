"""C05: energy targets stay within what ramp rates allow over the dispatch interval."""
import hypothesis.strategies as st

import gen_market as gm
import mkt
import refmarket as rm
from core import Part, check

ID = 'C05'
RULE = ('part "probe": one unit (generator, load or bidirectional) with drawn initial output, bid and SCADA ramp rates, '
        'interval length and fast start run type is pulled to its highest and lowest output by a soft demand, and the '
        'two outputs are compared with the reachable range computed directly; parts "market": whole markets with ramp '
        'limits against the reference model.  Non-trivial: a ramp limit binds')
ASSUMPTIONS = ['ramp limits of units starting up in fast start modes 0-2 do not apply (AEMO procedure as documented)']
GROUPS = ['ramp_up', 'ramp_down', 'bidirectional_ramp_up', 'bidirectional_ramp_down']


def extra(S, m, ref, out):
    if S.get('ramp_cost') is None:
        for (u, side), (lo, hi) in ref.ramp_ranges().items():
            if side is not None and (u, side, 'energy') not in out.disp:
                continue
            e = out.energy(u, side)
            check(lo - 1e-3 <= e <= hi + 1e-3, '%s %s at %.4f, reachable range is [%.4f, %.4f]', u, side, e, lo, hi)
    return []


def nontrivial(S, ref, out):
    return out is not None and mkt.binding(ref, ref.pinned_values, GROUPS) > 0


@st.composite
def probe(draw):
    kind = draw(st.sampled_from([['generator'], ['generator', 'load'], ['load']]))
    rate = st.one_of(st.sampled_from([0.0, 12.0, 60.0, 1200.0]), st.integers(0, 900).map(float),
                     st.floats(0, 800).map(lambda x: round(x, 2)))
    g, l = draw(st.integers(10, 200)), draw(st.integers(10, 200))
    S = {'regions': ['NSW'], 'interval': draw(st.sampled_from([5, 30, 5, 15])), 'bids': [],
         'units': [{'unit': 'A', 'region': 'NSW', 'sides': kind, 'lf': {s: 1.0 for s in kind}}],
         'demand': {'NSW': 0.0}, 'demand_cost': 20000.0, 'perm': draw(st.integers(0, 3)),
         'past': draw(st.sampled_from([0, 0, 0, 0, 1, 2, 4, 5, 3]))}
    for s in kind:
        S['bids'].append({'unit': 'A', 'side': s, 'service': 'energy', 'vol': [float(g if s == 'generator' else l)],
                          'price': [100.0 if s == 'generator' else 20.0]})
    if len(kind) == 2:
        init = draw(st.one_of(st.just(0), st.integers(-l, g), st.floats(-l, g).map(lambda x: round(x, 2))))
    else:
        init = draw(st.one_of(st.just(0), st.integers(0, g if kind == ['generator'] else l)))
    S['ramp'] = [{'unit': 'A', 'side': s, 'init': float(init), 'up': draw(rate), 'down': draw(rate)} for s in kind]
    if draw(st.booleans()):
        S['scada'] = [{'unit': 'A', 'up': draw(st.one_of(st.none(), rate)), 'down': draw(st.one_of(st.none(), rate))}]
    if kind == ['generator'] and draw(st.booleans()):
        S['run_type'] = draw(st.sampled_from(['first', 'second']))
        cm = draw(st.integers(0, 4))
        em = draw(st.integers(0, 4))
        S['ramp_fs'] = [{'unit': 'A', 'current_mode': cm, 'end_mode': em, 'min_loading': float(draw(st.integers(0, g))),
                         'since': draw(st.one_of(st.none(), st.integers(0, S['interval']).map(float)))
                         if em in (3, 4) else None}]
    return S


def run_probe(S):
    kind = S['units'][0]['sides']
    cap = {b['side']: b['vol'][0] for b in S['bids']}
    lowest = -cap['load'] if 'load' in kind else 0.0
    highest = cap['generator'] if 'generator' in kind else 0.0
    rng = rm.Ref(S).ramp_ranges()
    side = None if len(kind) == 2 else kind[0]
    lo, hi = rng.get(('A', side), (-1e9, 1e9))
    if side == 'load':
        lo, hi = -hi, -lo          # in terms of net output
    nt = False
    lo_eff, hi_eff = max(lo, lowest), min(hi, highest)
    for demand, expect, binds in ((5000.0, hi_eff, hi < highest), (-5000.0, lo_eff, lo > lowest)):
        T = dict(S, demand={'NSW': demand})
        m = rm.build(T)
        ok = rm.dispatch(m)
        if lo_eff > hi_eff + 1e-6:
            check(not ok, 'dispatched although no output is reachable (range [%s, %s])', lo, hi)
            return {'nontrivial': True, 'labels': ['unreachable']}
        if abs(lo_eff - hi_eff) < 1e-6 and not ok:
            return {'nontrivial': False, 'labels': ['marginal']}
        check(ok, 'infeasible although outputs in [%s, %s] are reachable', lo_eff, hi_eff)
        e = rm.Out(T, m).energy('A')
        check(abs(e - expect) < 1e-3, 'pulled to %s, the unit goes to %.4f instead of %.4f (reachable [%s, %s])',
              'its maximum' if demand > 0 else 'its minimum', e, expect, lo, hi)
        nt = nt or binds
    return {'nontrivial': nt, 'labels': ['/'.join(kind), S.get('run_type', 'no')] +
            (['scada'] if S.get('scada') else [])}


def parts():
    base = dict(units=(2, 4), ramp=1.0, scada=0.6, fs_run=0.4, demand_cost=0.9, tight=0.2, soft=0.5, fcas=0.1,
                inter=0.4, fast_start=0.0, generic=0.0)
    return [
        Part('probe', probe, run_probe, 900, 25000),
        mkt.agree_part('market', 500, 15000, base, nontrivial, extra),
        mkt.agree_part('market_bidirectional', 300, 10000, dict(base, bdu=0.7, fs_run=0.2), nontrivial, extra),
    ]
