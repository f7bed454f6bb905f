"""C14: malformed inputs are rejected with a documented error and leave the market as it was."""
import copy
import zlib

import hypothesis.strategies as st

import gen_market as gm
import mkt
import refmarket as rm
from core import HarnessError, Part, Violation, check

ID = 'C14'
RULE = ('hypothesis draws a market, one of its input tables and one defect to plant in it (missing or unexpected column, '
        'wrong dtype, null/infinite/negative value, repeated key, unknown unit, region, service, side or direction, '
        'one-sided bidirectional bid, loss share above 1), and re-issues the setter with it: the documented error must '
        'be raised, and the market must afterwards dispatch as if the call had not been made.  Part "pairs" '
        'goes through all (table, defect) pairs evenly.  Part "order" issues calls out of order or with unusable arguments.  Non-trivial: the planted defect applies to the table')
ASSUMPTIONS = ['negative demand, ramp rate, initial output, requirement volume and capacity are accepted although the '
               'docstrings (copied between setters) list negative values as errors']

R, N, P = 'real', 'nonneg', 'plain'
F64 = {
    'unit_info': {'loss_factor': N},
    'volume_bids': {'1': N, '2': N}, 'price_bids': {'1': R, '2': R},
    'capacity': {'capacity': R}, 'uigf': {'capacity': R},
    'ramp': {'initial_output': R, 'ramp_up_rate': R, 'ramp_down_rate': R},
    'scada': {}, 'ramp_fs': {}, 'fast_start': {'time_in_end_mode': N, 'mode_two_length': N, 'mode_four_length': N,
                                               'min_loading': N},
    'demand': {'demand': R}, 'fcas_req': {'volume': R}, 'fcas_max': {'max_availability': N},
    'joint_ramp': {'initial_output': P},
    'contingency': {'max_availability': N, 'enablement_min': R, 'low_break_point': R, 'high_break_point': R,
                    'enablement_max': R},
    'regulation': {'max_availability': N, 'enablement_min': R, 'low_break_point': R, 'high_break_point': R,
                   'enablement_max': R},
    'inter': {'max': R, 'min': R, 'from_region_loss_factor': N, 'to_region_loss_factor': N},
    'loss_functions': {'from_region_loss_share': N}, 'break_points': {'break_point': R},
    'generic': {'rhs': R}, 'generic_units': {'coefficient': R}, 'generic_regions': {'coefficient': R},
    'generic_inters': {'coefficient': R},
}
KEYS = {
    'unit_info': ['unit', 'region'], 'volume_bids': ['unit'], 'price_bids': ['unit'], 'capacity': ['unit'],
    'uigf': ['unit'], 'ramp': ['unit'], 'fast_start': ['unit'], 'demand': ['region'],
    'fcas_req': ['set', 'region', 'service'], 'fcas_max': ['unit', 'service'], 'joint_ramp': ['unit'],
    'contingency': ['unit', 'service'], 'regulation': ['unit', 'service'], 'inter': ['to_region', 'from_region'],
    'loss_functions': [], 'break_points': [], 'generic': [], 'generic_units': ['unit', 'service'],
    'generic_regions': ['region', 'service'], 'generic_inters': [], 'scada': ['unit'], 'ramp_fs': ['unit'],
}
REQUIRED = {
    'unit_info': ['unit', 'region'], 'volume_bids': ['unit', '1'], 'price_bids': ['unit', '1'],
    'capacity': ['unit', 'capacity'], 'uigf': ['unit', 'capacity'],
    'ramp': ['unit', 'initial_output', 'ramp_up_rate', 'ramp_down_rate'],
    'fast_start': ['unit', 'end_mode', 'time_in_end_mode', 'mode_two_length', 'mode_four_length', 'min_loading'],
    'demand': ['region', 'demand'], 'fcas_req': ['set', 'region', 'service', 'volume'],
    'fcas_max': ['unit', 'service', 'max_availability'],
    'joint_ramp': ['unit', 'initial_output', 'scada_ramp_up_rate', 'scada_ramp_down_rate'],
    'contingency': ['unit', 'service', 'max_availability', 'enablement_min', 'low_break_point', 'high_break_point',
                    'enablement_max'],
    'regulation': ['unit', 'service', 'max_availability', 'enablement_min', 'low_break_point', 'high_break_point',
                   'enablement_max'],
    'inter': ['interconnector', 'to_region', 'from_region', 'max', 'min'],
    'loss_functions': ['interconnector', 'from_region_loss_share', 'loss_function'],
    'break_points': ['interconnector', 'loss_segment', 'break_point'], 'generic': ['set', 'type', 'rhs'],
    'generic_units': ['set', 'unit', 'service', 'coefficient'],
    'generic_regions': ['set', 'region', 'service', 'coefficient'],
    'generic_inters': ['set', 'interconnector', 'coefficient'], 'scada': ['unit'], 'ramp_fs': ['unit'],
}
SETTER = {'volume_bids': 'bids', 'price_bids': 'bids', 'loss_functions': 'inter', 'break_points': 'inter',
          'scada': 'ramp', 'ramp_fs': 'ramp'}
DEFECTS = ['missing', 'unexpected', 'dtype', 'null', 'inf', 'minus_inf', 'negative', 'repeat', 'unknown', 'side',
           'one_sided', 'not_text', 'share', 'gcf', 'mode']
STATIC = ('ColumnDataTypeError', 'MissingColumnError', 'UnexpectedColumn', 'ColumnValues', 'RepeatedRowError')


@st.composite
def case(draw, **feat):
    S = draw(gm.scenario(**feat))
    S['perm'] = draw(st.sampled_from([0, 0, 3]))
    F = tables(S)
    table = draw(st.sampled_from(F))
    i, j = draw(st.integers(0, 30)), draw(st.integers(0, 30))
    frames = rm.frames(S)
    fits = [d for d in DEFECTS if plant({'table': table, 'defect': d, 'i': i, 'j': j}, frames) is not None]
    return {'S': S, 'table': table, 'defect': draw(st.sampled_from(fits or DEFECTS)), 'i': i, 'j': j,
            'when': draw(st.sampled_from(['after', 'after', 'before', 'dispatched'])),
            'follow': draw(st.sampled_from([None, None, 'reissue', 'elastic', 'all']))}


PAIRS = [(t, d) for t in REQUIRED for d in DEFECTS
         if not (d in ('dtype', 'null', 'inf', 'minus_inf') and not F64[t])
         and not (d == 'negative' and N not in F64[t].values())
         and not (d == 'one_sided' and t not in ('volume_bids', 'price_bids', 'ramp'))
         and not (d == 'share' and t != 'loss_functions') and not (d == 'gcf' and t != 'inter')
         and not (d == 'mode' and t != 'fast_start') and not (d == 'not_text' and t in ('unit_info', 'scada', 'ramp_fs'))]
PAIRS += 3 * [p for p in PAIRS if p[1] == 'one_sided']      # needs a bidirectional unit


@st.composite
def pair_case(draw, **feat):
    """Every (table, defect) pair equally often, in a market that has nearly every kind of table."""
    # hashed, because hypothesis favours some integers
    S = draw(gm.scenario(**feat))
    k = zlib.crc32(b'%d' % draw(st.integers(0, 2 ** 31))) % len(PAIRS)
    have = set(tables(S))
    frames = rm.frames(S)
    i, j = draw(st.integers(0, 30)), draw(st.integers(0, 30))
    for n in range(len(PAIRS)):                 # the next pair this market can carry
        t, d = PAIRS[(k + n) % len(PAIRS)]
        if t in have and plant({'table': t, 'defect': d, 'i': i, 'j': j}, frames) is not None:
            break
    return {'S': S, 'table': t, 'defect': d, 'i': i, 'j': j,
            'when': draw(st.sampled_from(['after', 'after', 'before', 'dispatched'])),
            'follow': draw(st.sampled_from([None, None, 'reissue', 'elastic', 'all']))}


def tables(S):
    out = ['unit_info', 'volume_bids', 'price_bids']
    for k in rm.STEPS[1:]:
        if S.get(k) and k in KEYS:
            out.append(k)
    if S.get('losses'):
        out += ['loss_functions', 'break_points']
    if S.get('scada'):
        out.append('scada')
    if S.get('ramp') and S.get('run_type', 'no') != 'no':
        out.append('ramp_fs')
    return out


def plant(c, F):
    """-> (defective table, acceptable error names) or None if this defect does not apply."""
    import numpy as np
    import pandas as pd
    t, d, i, j = c['table'], c['defect'], c['i'], c['j']
    f = F[t].copy()
    cols = list(f.columns)
    row = f.index[i % len(f)] if f.index.is_unique else None
    num = sorted(x for x in F64[t] if x in cols)
    if row is None:
        f = f.reset_index(drop=True)
        row = i % len(f)
    if d == 'missing':
        col = REQUIRED[t][j % len(REQUIRED[t])]
        if col not in cols:
            return None
        if t in ('scada', 'ramp_fs') and col == 'unit' or t == 'unit_info':
            return None
        return f.drop(columns=[col]), ('MissingColumnError', 'KeyError')
    if d == 'unexpected':
        name = ['surprise', 'Unit', '11', 'capacity ', 'price'][j % 5]
        if name in cols:
            return None
        f[name] = 1.0
        return f, ('UnexpectedColumn',)
    if d == 'dtype':
        if not num:
            return None
        col = num[j % len(num)]
        f[col] = f[col].astype(str) if i % 2 else f[col].round(0).fillna(0).astype('int64')
        return f, ('ColumnDataTypeError',)
    if d in ('null', 'inf', 'minus_inf'):
        ok = [x for x in num if F64[t][x] in (R, N)]
        if not ok:
            return None
        f.loc[row, ok[j % len(ok)]] = {'null': np.nan, 'inf': np.inf, 'minus_inf': -np.inf}[d]
        return f, ('ColumnValues',)
    if d == 'negative':
        ok = [x for x in num if F64[t][x] == N]
        if not ok:
            return None
        f.loc[row, ok[j % len(ok)]] = -0.5
        return f, ('ColumnValues',)
    if d == 'share':
        if t != 'loss_functions':
            return None
        f.loc[row, 'from_region_loss_share'] = 1.5
        return f, ('ColumnValues',)
    if d == 'gcf':
        if t != 'inter' or 'generic_constraint_factor' not in cols:
            return None
        f.loc[row, 'generic_constraint_factor'] = 2
        return f, ('ColumnValues',)
    if d == 'mode':
        if t != 'fast_start':
            return None
        f.loc[row, 'end_mode'] = -1
        return f, ('ColumnValues',)
    if d == 'repeat':
        f = pd.concat([f, f.loc[[row]]])
        return f, ('RepeatedRowError',)
    if d == 'unknown':
        keys = [k for k in KEYS[t] if k in cols and k != 'set']
        if 'type' in cols and t == 'fcas_req':
            keys.append('type')
        if not keys:
            return None
        col = keys[j % len(keys)]
        if t == 'unit_info' and col == 'unit':
            return None
        f.loc[row, col] = {'type': '=>', 'service': 'raise_7s'}.get(col, 'nobody')
        return f, ('ColumnValues',)
    if d == 'side':
        if 'dispatch_type' not in cols:
            return None
        f.loc[row, 'dispatch_type'] = 'battery'
        return f, ('ColumnValues',)
    if d == 'one_sided':
        if t not in ('volume_bids', 'price_bids', 'ramp') or 'dispatch_type' not in cols:
            return None
        e = f[(f['service'] == 'energy')] if 'service' in cols else f
        two = e[e.duplicated('unit', keep=False)]
        if two.empty:
            return None
        f = f.drop(index=[two.index[j % len(two)]]) if f.index.is_unique else None
        return (f, ('ModelBuildError',)) if f is not None else None
    if d == 'not_text':
        keys = [k for k in cols if k in ('unit', 'region', 'set', 'service', 'interconnector', 'link')]
        if t in ('unit_info', 'scada', 'ramp_fs'):
            return None
        col = keys[j % len(keys)]
        f[col] = f[col].astype(object)
        f.loc[row, col] = 5
        return f, ('ColumnDataTypeError',)
    raise HarnessError(d)


def offend(m, S, G, t):
    """Issue the setter of table t."""
    if t == 'price_bids':
        m.set_unit_price_bids(G[t])
    elif t == 'volume_bids':
        m.set_unit_volume_bids(G[t])
    elif t in ('loss_functions', 'break_points'):
        m.set_interconnector_losses(G['loss_functions'], G['break_points'])
    else:
        rm.apply(m, S, G, SETTER.get(t, t))


def run(c):
    from nempy import markets
    S, t = c['S'], c['table']
    F = rm.frames(S)
    p = plant(c, F)
    if p is None:
        return {'nontrivial': False, 'labels': ['not_applicable']}
    bad, names = p
    G = dict(F)
    G[t] = bad
    when, follow = c.get('when', 'after'), c.get('follow')

    def rejected(call):
        try:
            call()
        except Exception as e:
            got = type(e).__name__
            check(got in names, '%s in %s raises %s (%s), expected %s', c['defect'], t, got, str(e)[:150], names[0])
        else:
            raise Violation('%s in %s is accepted without an error (expected %s)' % (c['defect'], t, names[0]))

    fresh = lambda unit_info: markets.SpotMarket(market_regions=list(S['regions']), unit_info=unit_info,
                                                 dispatch_interval=S.get('interval', 5))
    if t == 'unit_info':
        rejected(lambda: fresh(bad))
        return {'nontrivial': True, 'labels': [c['defect'], t]}
    step = SETTER.get(t, t)
    m = fresh(F['unit_info'])
    for name in rm.steps(S):
        if name == step and when == 'before' and t not in ('price_bids', 'loss_functions', 'break_points'):
            rejected(lambda: offend(m, S, G, t))           # the first table of its kind is the malformed one
        rm.apply(m, S, F, name)
    if when == 'dispatched':
        rm.dispatch(m)
    if when != 'before' or t in ('price_bids', 'loss_functions', 'break_points'):
        rejected(lambda: offend(m, S, G, t))
    if follow == 'reissue':
        rm.apply(m, S, F, step)
    elif follow == 'all':
        for name in rm.steps(S):
            rm.apply(m, S, F, name)
    elif follow == 'elastic' and S.get('demand'):
        m.make_constraints_elastic('demand', 7000.0)
        S = dict(S, demand_cost=7000.0)
    ref, out, v = rm.agree(S, m=m)
    if out is not None:
        mkt.everything(S, m, ref, out)
    return {'nontrivial': True, 'labels': [c['defect'], t, when, 'then_%s' % follow]}


@st.composite
def order_case(draw):
    S = draw(gm.scenario(units=(1, 3), regions=(2, 2), inter=1.0, losses=1.0, capacity=0.5, uigf=0.5, generic=1.0,
                         fcas=0.7, demand_cost=1.0, soft=1.0, tight=0.4, ramp=0.5, fast_start=0.4, fcas_max=0.6, joint_ramp=0.6,
                         cont_trap=0.6, reg_trap=0.6))
    S['perm'] = 0
    return {'S': S, 'what': draw(st.sampled_from(ORDER)), 'k': draw(st.integers(0, 20))}


ORDER = ['price_first', 'capacity_first', 'uigf_first', 'losses_first', 'elastic_unknown', 'elastic_type',
         'elastic_bool', 'elastic_table', 'elastic_repeat', 'elastic_columns', 'rerun_no_prices', 'no_variables',
         'violation_type']


def run_order(c):
    import pandas as pd
    from nempy import markets
    S, w = c['S'], c['what']
    F = rm.frames(S)
    made, built = [], []

    def fresh():
        made.append(markets.SpotMarket(market_regions=list(S['regions']), unit_info=F['unit_info'],
                                       dispatch_interval=S['interval']))
        return made[-1]

    def call():
        if w == 'price_first':
            return fresh().set_unit_price_bids(F['price_bids'])
        if w == 'capacity_first':
            u = S['units'][0]
            T = dict(S, capacity=[{'unit': u['unit'], 'side': u['sides'][0], 'cap': 5.0}])
            return fresh().set_unit_bid_capacity_constraints(rm.frames(T)['capacity'])
        if w == 'uigf_first':
            return fresh().set_unconstrained_intermittent_generation_forecast_constraint(
                pd.DataFrame({'unit': [S['units'][0]['unit']], 'capacity': [5.0]}))
        if w == 'losses_first':
            return fresh().set_interconnector_losses(F['loss_functions'], F['break_points'])
        if w == 'no_variables':
            return fresh().dispatch()
        m = rm.build(S)
        built.append(m)
        if w == 'elastic_unknown':
            return m.make_constraints_elastic('nothing_like_it', 5.0)
        if w == 'elastic_type':
            return m.make_constraints_elastic('demand', [5.0])
        if w == 'elastic_bool':
            return m.make_constraints_elastic('demand', True)
        if w == 'violation_type':
            from checks import c13
            ks = [k for k in sorted(c13.COST) if S.get(k)]
            k = ks[c.get('k', 0) % len(ks)]
            T = dict(S)
            T[c13.COST[k]] = ['14000', True, [5.0]][c.get('k', 0) % 3]
            return rm.apply(m, T, F, k)
        g = S['generic'][0]['set']
        if w == 'elastic_table':
            return m.make_constraints_elastic('generic', pd.DataFrame({'set': [g], 'cost': ['a lot']}))
        if w == 'elastic_repeat':
            return m.make_constraints_elastic('generic', pd.DataFrame({'set': [g, g], 'cost': [5.0, 6.0]}))
        if w == 'elastic_columns':
            return m.make_constraints_elastic('generic', pd.DataFrame({'set': [g]}))
        if w == 'rerun_no_prices':
            return m.dispatch(allow_over_constrained_dispatch_re_run=True, energy_market_ceiling_price=100.0)
        raise HarnessError(w)

    want = {'price_first': 'ModelBuildError', 'capacity_first': 'ModelBuildError', 'uigf_first': 'ModelBuildError',
            'losses_first': 'ModelBuildError', 'no_variables': 'ModelBuildError', 'elastic_unknown': 'ModelBuildError',
            'elastic_type': 'ValueError', 'elastic_bool': 'ValueError', 'violation_type': 'ValueError',
            'elastic_table': 'ColumnDataTypeError', 'elastic_repeat': 'RepeatedRowError',
            'elastic_columns': 'MissingColumnError', 'rerun_no_prices': 'ValueError'}[w]
    try:
        call()
    except Exception as e:
        check(type(e).__name__ == want, '%s raises %s (%s), expected %s', w, type(e).__name__, str(e)[:100], want)
    else:
        raise Violation('%s is accepted without an error (expected %s)' % (w, want))
    for m in made:
        for name in rm.steps(S):
            rm.apply(m, S, F, name)
    for m in made + built:
        ref, out, v = rm.agree(S, m=m)
        if out is not None:
            mkt.everything(S, m, ref, out)
    return {'nontrivial': True, 'labels': [w]}


def parts():
    wide = dict(units=(1, 4), regions=(1, 3), capacity=0.5, uigf=0.4, ramp=0.6, fast_start=0.4, fcas=0.85, generic=0.5,
                fcas_max=0.7, joint_ramp=0.8, cont_trap=0.8, reg_trap=0.8, fs_run=0.5, scada=0.7, demand_cost=0.9, soft=0.9, bdu=0.25,
                load=0.15, inter=0.8, losses=0.8, links=0.3)
    full = dict(wide, units=(2, 4), regions=(2, 3), inter=1.0, losses=1.0, capacity=1.0, uigf=0.8, ramp=1.0, generic=1.0,
                fast_start=0.8, fcas=1.0, fcas_max=1.0, joint_ramp=1.0, cont_trap=1.0, reg_trap=1.0, bdu=0.5, scada=0.9)
    return [Part('tables', lambda: case(**wide), run, 900, 30000), Part('pairs', lambda: pair_case(**full), run, 400, 15000),
            Part('order', order_case, run_order, 200, 3000)]
