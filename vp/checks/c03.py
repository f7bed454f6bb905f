"""C03: energy and FCAS prices are marginal costs of the dispatched market."""
import hypothesis.strategies as st

import gen_market as gm
import mkt
import refmarket as rm
from core import Part, Skip, check

ID = 'C03'
RULE = ('hypothesis draws whole markets with demand and FCAS requirements; the reported energy and FCAS prices are '
        'offered to a hypothetical trader who may buy/sell 20 MW of every priced service in every region: if the '
        'reference market plus trader is cheaper than without, the prices are not marginal costs.  The same is done '
        'for the over constrained dispatch re-run, on the market with the violated constraints relaxed.  Non-trivial: '
        'at least one price is non-zero and the case was decided')
ASSUMPTIONS = ['markets whose losses are not convex around the dispatch (negative prices over lossy lines) are counted '
               'as undecided', 'prices at degenerate points may be any subgradient; all are accepted']


def prices_of(S, m):
    out = rm.Out(S, m)
    p = out.prices() if S.get('demand') else {}
    check(set(p) == set(S.get('demand') or {}), 'energy prices for %s, demand is set for %s', sorted(p),
          sorted(S.get('demand') or {}))
    q = out.fcas_prices() if S.get('fcas_req') else {}
    expect = {(r, s) for x in S.get('fcas_req') or [] for r in x['regions'] for s in rm.aslist(x['service'])}
    check(set(q) == expect, 'fcas prices for %s, requirements cover %s', sorted(q), sorted(expect))
    for k, v in list(p.items()) + list(q.items()):
        check(v == v and abs(v) < 1e12, 'price of %s is %r', k, v)
    return out, p, q


def marginal(ref, out, p, q, shift=None):
    t = rm.trader(ref, out, p, q, shift)
    if t is None:
        raise Skip('not convex around the dispatch')
    base, got = t
    tol = 2e-3 + 1e-7 * abs(base) + 2e-8 * rm.scale_of(ref) * 20
    check(base - got <= tol, 'prices %s %s are not marginal costs: trading at them lowers the cost of supply from '
          '%.6f to %.6f', p, q, base, got)


def plain(S):
    m = rm.build(S)
    ref, out, v = rm.agree(S, m=m)
    if out is None:
        return {'nontrivial': False, 'labels': ['infeasible']}
    out, p, q = prices_of(S, m)
    if not p and not q:
        return {'nontrivial': False, 'labels': []}
    marginal(ref, out, p, q)
    ls = mkt.labels(S, ref, out)
    return {'nontrivial': any(abs(x) > 1e-6 for x in list(p.values()) + list(q.values())), 'labels': ls}


def rerun(S):
    caps = list(S['caps'])
    m1 = rm.build(S)
    ref, out, v = rm.agree(S, m=m1)
    if out is None:
        return {'nontrivial': False, 'labels': ['infeasible']}
    out, p1, q1 = prices_of(S, m1)
    if S.get('exact'):      # only one cap matters, and it is met exactly
        caps = [1e7, -1e7, 1e7]
        if S['exact'] == 'fcas' and q1:
            caps[2] = max(q1.values())
        elif S['exact'] == 'floor' and p1:
            caps[1] = min(p1.values())
        elif p1:
            caps[0] = max(p1.values())
    kw = dict(energy_market_ceiling_price=caps[0], energy_market_floor_price=caps[1],
              fcas_market_ceiling_price=caps[2])
    # set level FCAS prices are not observable one by one; a per (region, service) price covered by a single set is.
    m2 = rm.build(S)
    rm.agree(S, m=m2, ref=ref, dispatch_kw=dict(kw, allow_over_constrained_dispatch_re_run=True))
    out2, p2, q2 = prices_of(S, m2)
    shift, worst = {}, 0.0
    for g in ('generic', 'fcas'):
        for k, typ, label, cost in ref.sets.get(g, []):
            x = rm.exact_row(ref, out2, k)
            lo, hi = ref.lp.rows[k][1], ref.lp.rows[k][2]
            d = x - hi if x > hi else (x - lo if x < lo else 0.0)
            if cost is None:
                continue
            if 1e-10 < abs(d) < 1e-3:
                raise Skip('violation at the solver tolerance')
            if abs(d) >= 1e-3:
                shift[k] = d + (0.01 if d > 0 else -0.01)
                worst = max(worst, abs(d))
    multi = {}
    for x in S.get('fcas_req') or []:
        for r in x['regions']:
            for s in rm.aslist(x['service']):
                multi[(r, s)] = multi.get((r, s), 0) + 1
    # with several requirements on one service only the sum of their prices is reported
    fc = None if any(n > 1 for n in multi.values()) else any(v >= caps[2] for v in q1.values())
    near = any(abs(v - c) < 1e-6 and v != c for v in list(p1.values()) + list(q1.values()) for c in caps)
    if near:
        raise Skip('price within rounding of a cap')
    energy = any(v >= caps[0] for v in p1.values()) or any(v <= caps[1] for v in p1.values())
    if fc is None and not energy and shift:
        raise Skip('set prices not observable')
    trigger = bool(energy or fc) and bool(shift)
    if trigger:
        try:
            marginal(ref, out2, p2, q2, shift)
        except Skip:
            raise
    else:
        for k in p1:
            check(abs(p1[k] - p2[k]) < 1e-6 + 1e-9 * abs(p1[k]), 'price of %s changes from %s to %s although no re-run '
                  'is due', k, p1[k], p2[k])
        for k in q1:
            check(abs(q1[k] - q2[k]) < 1e-6 + 1e-9 * abs(q1[k]), 'price of %s changes from %s to %s although no re-run '
                  'is due', k, q1[k], q2[k])
    for k in out.disp:
        check(abs(out.disp[k] - out2.disp[k]) < 1e-4, 'allowing the re-run changes the dispatch of %s', k)
    return {'nontrivial': trigger, 'labels': ['relaxed' if trigger else 'not_relaxed'] + mkt.labels(S, ref, out)}


@st.composite
def with_caps(draw, **feat):
    S = draw(gm.scenario(**feat))
    S['caps'] = draw(st.sampled_from([[15000.0, -1000.0, 15000.0], [300.0, -1000.0, 300.0], [60.0, 0.0, 60.0],
                                      [15000.0, 30.0, 15000.0], [15000.0, -1000.0, 10.0]]))
    S['exact'] = draw(st.sampled_from([None, None, 'ceiling', 'floor', 'fcas']))
    return S


def parts():
    net = dict(regions=(2, 3), units=(2, 5), inter=1.0, losses=0.7, links=0.2, neg_price=0.08, fcas=0.1,
               demand_cost=0.8, soft=0.8, lf=0.6)
    link = dict(net, links=0.9, neg_price=0.5, inter_lf=0.5, fcas=0.05)
    co = dict(regions=(1, 3), units=(2, 5), inter=0.7, losses=0.3, fcas=1.0, fcas_max=0.6, cont_trap=0.6, reg_trap=0.6,
              joint_ramp=0.5, ramp=0.3, capacity=0.3, soft=0.8, demand_cost=0.8, neg_price=0.1, generic=0.2)
    ocd = dict(regions=(1, 2), units=(1, 4), inter=0.6, losses=0.2, links=0.1, fcas=0.7, generic=0.9, demand_cost=0.9,
               soft=0.9, neg_price=0.1, fcas_infeasible=0.5)
    return [Part('network', lambda: gm.scenario(**net), plain, 600, 20000),
            Part('links', lambda: gm.scenario(**link), plain, 300, 10000),
            Part('cooptimised', lambda: gm.scenario(**co), plain, 700, 25000),
            Part('rerun', lambda: with_caps(**ocd), rerun, 700, 25000)]
