"""C12: equivalent inputs give equivalent outcomes; inputs and results are never shared or modified."""
import copy

import hypothesis.strategies as st

import gen_market as gm
import mkt
import refmarket as rm
from core import HarnessError, Part, check

ID = 'C12'
RULE = ('hypothesis draws a market and a behaviour-preserving transformation of its input tables (row order, index '
        'labels, column order, setter order, omitted optional columns, renamed units/regions/sets, a band split in two, '
        'extra empty bands, units without bids, doubled ramp rates with a halved interval); cost, and '
        'where unique dispatch, must not change.  Inputs are compared before/after, overwritten after being passed in, '
        'and dispatch is repeated.  Non-trivial: the market was dispatched and the transformation changed the tables')
ASSUMPTIONS = ['names are compared as opaque labels; renaming keeps them distinct']

T = ['permute', 'rename', 'split_band', 'empty_bands', 'idle_unit', 'interval', 'defaults']


@st.composite
def case(draw, **feat):
    S = draw(gm.scenario(**feat))
    S['perm'] = 0
    S.pop('past', None)
    ts = draw(st.lists(st.sampled_from(T), min_size=1, max_size=3, unique=True))
    return {'S': S, 'ts': ts, 'perm': draw(st.integers(1, 10000))}


def rename(S):
    S = copy.deepcopy(S)
    un = {u['unit']: 'zz_%d_%s' % (len(S['units']) - i, u['unit'][::-1]) for i, u in enumerate(S['units'])}
    rn = {r: {'NSW': 'ZZ1', 'VIC': 'AA 1', 'QLD': 'NSW1', 'SA': 'QLD', 'TAS': 'VIC'}[r] for r in S['regions']}
    inn = {k['name']: 'X' + k['name'][::-1] for k in S.get('inter') or []}

    def walk(x, key=None):
        if isinstance(x, dict):
            out = {}
            for k, v in x.items():
                out[rn[k] if key == 'demand' else k] = walk(v, k)
            return out
        if isinstance(x, list):
            return [walk(v, key) for v in x]
        if key == 'unit':
            return un[x]
        if key in ('region', 'regions', 'from', 'to'):
            return rn[x]
        if key in ('name', 'inter') and x in inn:
            return inn[x]
        return x
    S2 = walk(S)
    for key in ('inter', 'losses'):
        for k in S2.get(key) or []:
            orig = next(a for a, b in inn.items() if b == k['name'])
            k['link'] = inn[orig] if k['link'] == orig else 'L' + k['link']
    return S2


def transform(S, t):
    S = copy.deepcopy(S)
    if t == 'rename':
        return rename(S)
    if t == 'split_band':
        for b in S['bids']:
            for j, v in enumerate(b['vol']):
                if v > 1 and len(b['vol']) < 10:
                    b['vol'] = b['vol'][:j] + [v * 0.25, v * 0.75] + b['vol'][j + 1:]
                    b['price'] = b['price'][:j] + [b['price'][j]] * 2 + b['price'][j + 1:]
                    break
    if t == 'empty_bands':
        for b in S['bids']:
            if len(b['vol']) > 7:
                continue
            b['vol'] = [0.0] + b['vol'] + [0.0, 0.0]
            b['price'] = [b['price'][0] - 1] + b['price'] + [b['price'][-1] + 1, b['price'][-1] + 2]
    if t == 'interval':
        S['interval'] = S['interval'] / 2.0
        for k in ('ramp', 'joint_ramp', 'scada'):
            for q in S.get(k) or []:
                for f in ('up', 'down'):
                    if q.get(f) is not None:
                        q[f] *= 2
        for q in S.get('ramp_fs') or []:
            if q.get('since') is not None:
                q['since'] /= 2.0
    return S


def values(F):
    return {k: v.copy(deep=True) for k, v in F.items()}


def same_frames(A, B):
    import pandas as pd
    for k in A:
        try:
            pd.testing.assert_frame_equal(A[k].drop(columns=['loss_function'], errors='ignore'),
                                          B[k].drop(columns=['loss_function'], errors='ignore'))
        except AssertionError as e:
            return k + ': ' + str(e).replace('\n', ' ')[:300]
    return None


def make(S, c, ts):
    """Build the transformed market; returns (market, frames, copies taken before)."""
    F = rm.frames(S)
    if 'idle_unit' in ts:
        import pandas as pd
        row = {x: None for x in F['unit_info'].columns}
        row.update({'unit': 'IDLE', 'region': S['regions'][0]})
        if 'dispatch_type' in row:
            row['dispatch_type'] = 'generator'
        if 'loss_factor' in row:
            row['loss_factor'] = 0.5
        F['unit_info'] = pd.concat([F['unit_info'], pd.DataFrame([row])])
    return F


def run(c):
    S = c['S']
    m = rm.build(S)
    ref, out, v = rm.agree(S, m=m)
    ls = mkt.labels(S, ref, out) + ['t_' + t for t in c['ts']]
    S2 = S
    for t in c['ts']:
        S2 = transform(S2, t)
    if 'permute' in c['ts'] or 'defaults' in c['ts']:
        S2['perm'] = c['perm']
    if 'tie_break' in S2 and ('split_band' in c['ts'] or 'empty_bands' in c['ts']):
        S2.pop('tie_break')
        ref = None
    F = make(S2, c, c['ts'])
    before = values(F)
    m2 = market_from(S2, F)
    bad = same_frames(before, F)
    check(bad is None, 'a setter modified its input table %s', bad)
    # the caller goes on to reuse its tables
    for k, f in F.items():
        for col in f.columns:
            if f[col].dtype.kind in 'fi':
                f[col] = f[col] * 0 - 77
            elif col != 'loss_function':
                f[col] = 'garbage'
    ok2 = rm.dispatch(m2)
    if out is None:
        if ok2:
            ref2 = rm.Ref(S2)
            check(ref2.solve() is not None or rm.agree(S2, m=market_from(S2, make(S2, c, c['ts'])))[1] is None,
                  'the transformed market has a dispatch, the original has none')
        return {'nontrivial': False, 'labels': ls}
    if not ok2:
        rm.agree(S2, m=market_from(S2, make(S2, c, c['ts'])))
        check(False, 'the market has a dispatch, its equivalent (%s) does not', ', '.join(c['ts']))
    o2 = rm.Out(S2, m2)
    if ref is not None:
        tol = 2 * rm.obj_tol(v) + 2e-6 * rm.scale_of(ref)
        check(abs(o2.objective - out.objective) <= tol, 'cost %s becomes %s in an equivalent market (%s)', out.objective,
              o2.objective, ', '.join(c['ts']))
    # dispatching again changes nothing
    d1, f1 = dict(o2.disp), dict(o2.flow)
    p1 = o2.prices() if S2.get('demand') else {}
    q1 = o2.fcas_prices() if S2.get('fcas_req') else {}
    for r in reports(S2, m2).values():
        for col in r.columns:
            r[col] = -5.0 if r[col].dtype.kind in 'fi' else 'edited'
        r.drop(index=r.index[:1], inplace=True)
    m2.get_constraint_set_names().clear()
    o3 = rm.Out(S2, m2)
    check(o3.disp == d1 and o3.flow == f1, 'editing a returned table changes later results')
    check((o3.prices() if p1 else {}) == p1 and (o3.fcas_prices() if q1 else {}) == q1,
          'editing a returned price table changes later results')
    if 'tie_break' not in S2:
        ref2, out2, _ = rm.agree(S2, m=m2)
        if out2 is not None:
            ls += mkt.everything(S2, m2, ref2, out2)
    check(rm.dispatch(m2), 'infeasible when dispatched a second time')
    o4 = rm.Out(S2, m2)
    check(abs(o4.objective - o2.objective) < 1e-6 + 1e-9 * abs(o2.objective), 'dispatching twice moves the cost')
    for a, b, what in ((d1, o4.disp, 'dispatch'), (f1, o4.flow, 'flow'), (p1, o4.prices() if p1 else {}, 'price'),
                       (q1, o4.fcas_prices() if q1 else {}, 'FCAS price')):
        for k in a:
            check(abs(a[k] - b[k]) < 1e-6 + 1e-8 * abs(a[k]), 'dispatching twice moves the %s of %s from %s to %s', what, k,
                  a[k], b[k])
    return {'nontrivial': True, 'labels': ls}


def reports(S, m):
    """Every table a dispatched market returns."""
    R = {'dispatch': m.get_unit_dispatch(), 'summary': m.get_region_dispatch_summary()}
    if S.get('demand'):
        R['prices'] = m.get_energy_prices()
    if S.get('fcas_req'):
        R['fcas_prices'] = m.get_fcas_prices()
    if S.get('inter'):
        R['flows'] = m.get_interconnector_flows()
    return R


def market_from(S, F):
    from nempy import markets
    m = markets.SpotMarket(market_regions=list(S['regions']), unit_info=F['unit_info'],
                           dispatch_interval=S.get('interval', 5))
    for name in rm.steps(S):
        rm.apply(m, S, F, name)
    return m


def parts():
    wide = dict(units=(1, 4), regions=(1, 3), capacity=0.3, uigf=0.2, ramp=0.35, fast_start=0.2, fcas=0.4, generic=0.3,
                tie_break=0.1, demand_cost=0.8, soft=0.6, bdu=0.2, load=0.2)
    return [Part('equivalent', lambda: case(**wide), run, 900, 30000)]
