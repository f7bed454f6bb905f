"""C11: equally priced bids are dispatched in proportion to their size, without changing the cost of supply."""
import hypothesis.strategies as st

import gen_market as gm
import mkt
import refmarket as rm
from core import Part, check

ID = 'C11'
RULE = ('part "pro_rata": one region, 2-5 units with bids at one common regional price (plus other bids) and unit names '
        'chosen to collide when joined; the tied bids must be loaded to the same fraction; part "market": markets with '
        'many equal prices, tie breaking on, against the reference model and against the same market without tie '
        'breaking.  Non-trivial: at least two bids of different units tie')
ASSUMPTIONS = ['tie breaking cost 0.001 as in the documentation; a tie is equality of price / loss factor']


@st.composite
def pro_rata(draw):
    side = draw(st.sampled_from(['generator', 'generator', 'load']))
    n = draw(st.integers(2, 5))
    names = draw(st.permutations(gm.NAMES))[:n + 1]
    price = float(draw(st.integers(5, 80)))
    S = {'regions': ['NSW'], 'interval': 5, 'units': [], 'bids': [], 'tie_break': 1e-3,
         'perm': draw(st.integers(0, 40)),
         'past': draw(st.sampled_from([0, 0, 0, 0, 1, 2, 4, 5, 3]))}
    tot = 0.0
    for u in names[:n]:
        S['units'].append({'unit': u, 'region': 'NSW', 'sides': [side], 'lf': {side: 1.0}})
        v = float(draw(st.integers(1, 100)))
        k = draw(st.integers(0, 2))
        vol, pr = [v], [price]
        if k == 1:
            vol, pr = [v, float(draw(st.integers(1, 50)))], [price, price + (5000.0 if side == 'generator' else -4.0)]
        if side == 'load' and k == 1:
            vol, pr = [v], [price]
        S['bids'].append({'unit': u, 'side': side, 'service': 'energy', 'vol': vol, 'price': pr})
        tot += v
    frac = draw(st.integers(0, 100))
    if side == 'generator':
        S['demand'] = {'NSW': round(tot * frac / 100.0, 3)}
    else:
        # consumption is served by one generator that is cheaper than what the loads are willing to pay
        g = names[n]
        S['units'].append({'unit': g, 'region': 'NSW', 'sides': ['generator'], 'lf': {'generator': 1.0}})
        S['bids'].append({'unit': g, 'side': 'generator', 'service': 'energy', 'vol': [round(tot * frac / 100.0, 3) + 1],
                          'price': [1.0]})
        S['demand'] = {'NSW': 1.0}
    S['frac'] = frac
    return S


def run_pro_rata(S):
    m = rm.build(S)
    ref, out, v = rm.agree(S, m=m)
    check(out is not None, 'infeasible')
    tied = [b for b in S['bids'] if b['side'] == S['units'][0]['sides'][0] and b['unit'] != (
        S['units'][-1]['unit'] if S['units'][0]['sides'][0] == 'load' else None)]
    fr = S['frac'] / 100.0
    for b in tied:
        got = out.energy(b['unit'], b['side']) / b['vol'][0]
        check(abs(got - fr) < 2e-3 + 2e-3 / b['vol'][0], 'tied offers of %s: %s is loaded to %.4f, all should be at %.4f',
              [x['unit'] for x in tied], b['unit'], got, fr)
    return {'nontrivial': 0 < S['frac'] < 100, 'labels': [tied[0]['side'], '%d_tied' % len(tied)]}


def run_market(S):
    m = rm.build(S)
    ref, out, v = rm.agree(S, m=m)
    pairs = ref.tied_pairs()
    if out is not None:
        T = {k: x for k, x in S.items() if k != 'tie_break'}
        m2 = rm.build(T)
        check(rm.dispatch(m2), 'infeasible without tie breaking')
        bound = 1e-3 * len(pairs) + rm.obj_tol(v) + 1e-6 * rm.scale_of(ref)
        check(m2.objective_value <= out.objective + bound and out.objective <= m2.objective_value + bound,
              'tie breaking moves the cost from %s to %s', m2.objective_value, out.objective)
    return {'nontrivial': bool(pairs) and out is not None,
            'labels': mkt.labels(S, ref, out) + (['ties'] if pairs else [])}


def parts():
    feat = dict(units=(2, 5), regions=(1, 2), bands=(1, 3), tie_break=1.0, large=0.2, same_price=0.9, lf=0.2,
                demand_cost=0.9, bdu=0.25, load=0.25, inter=0.4, fcas=0.1, soft=0.8, generic=0.1, neg_price=0.0)
    return [Part('pro_rata', pro_rata, run_pro_rata, 600, 20000),
            Part('market', lambda: gm.scenario(**feat), run_market, 600, 20000)]
