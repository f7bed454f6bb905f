"""C01: every region's energy balance closes, and the regional summary adds up."""
import refmarket as rm
import mkt
from core import check

ID = 'C01'
RULE = ('hypothesis draws whole markets (1-3 regions, generators, loads, bidirectional units, loss factors, lossy and '
        'linked interconnectors, soft or hard demand, optional unit limits, random row order); non-trivial: at least '
        'one region has units or flows on both the import and the export side of its balance, and the market was '
        'dispatched')
ASSUMPTIONS = ['CBC and HiGHS solve to 1e-6 feasibility; comparisons use 1e-3 MW']


def net_injection(S, out, r):
    x = 0.0
    for u in S['units']:
        if u['region'] == r:
            x += out.energy(u['unit'], 'generator') - out.energy(u['unit'], 'load')
    share = {(l['name'], l['link']): l['from_share'] for l in S.get('losses') or []}
    for k in S.get('inter') or []:
        key = (k['name'], k['link'])
        f, loss = out.flow[key], out.loss.get(key, 0.0)
        if k['to'] == r:
            x += f * k['to_lf'] - loss * (1 - share.get(key, 0.0))
        if k['from'] == r:
            x -= f * k['from_lf'] + loss * share.get(key, 0.0)
    return x


def extra(S, m, ref, out):
    ls = []
    total = 0.0
    for r, d in (S.get('demand') or {}).items():
        res = net_injection(S, out, r) - d
        total += abs(res)
        if S.get('demand_cost') is None:
            check(abs(res) < 1e-3, 'region %s: supply %.5f, demand %.5f', r, res + d, d)
    if S.get('demand') and S.get('demand_cost') is not None:
        deg = m.get_elastic_constraints_violation_degree('demand')
        check(abs(deg - total) < 2e-3, 'demand mismatch is %.5f in total but %.5f is reported', total, deg)
        if total > 1e-3:
            ls.append('unserved_or_surplus')
    summary(S, m, ref, out)
    return ls


def summary(S, m, ref, out):
    s = m.get_region_dispatch_summary()
    rows = {}
    for q in s.to_dict('records'):
        check(q['region'] not in rows, 'two summary rows for region %s', q['region'])
        rows[q['region']] = q
    expect = {u['region'] for u in S['units'] if any(k[0] == u['unit'] and k[2] == 'energy' for k in out.disp)}
    expect |= {k[x] for k in S.get('inter') or [] for x in ('from', 'to')}
    check(set(rows) == expect, 'summary covers regions %s, market has %s', sorted(rows), sorted(expect))
    share = {(l['name'], l['link']): l['from_share'] for l in S.get('losses') or []}
    for r, q in rows.items():
        disp = sum(out.energy(u['unit'], 'generator') - out.energy(u['unit'], 'load') for u in S['units']
                   if u['region'] == r)
        inflow = closs = tloss = 0.0
        for k in S.get('inter') or []:
            key = (k['name'], k['link'])
            f, loss = out.flow[key], out.loss.get(key, 0.0)
            if k['to'] == r:
                inflow += f
                tloss += f * (1 - k['to_lf'])
                closs += loss * (1 - share.get(key, 0.0))
            if k['from'] == r:
                inflow -= f
                tloss -= f * (1 - k['from_lf'])
                closs += loss * share.get(key, 0.0)
        for col, val in (('dispatch', disp), ('inflow', inflow), ('transmission_losses', tloss),
                         ('interconnector_losses', closs)):
            have = q.get(col, 0.0)
            check(abs(have - val) < 1e-3, 'summary of %s: %s is %.5f, should be %.5f', r, col, have, val)
            if S.get('inter') and (col != 'interconnector_losses' or S.get('losses')):
                check(col in q, 'summary has no column %s', col)


def nontrivial(S, ref, out):
    return out is not None and (any(abs(f) > 1e-3 for f in out.flow.values()) or
                                any(k[1] == 'load' and v > 1e-3 for k, v in out.disp.items()))


def parts():
    return [
        mkt.agree_part('network', 900, 30000, dict(
            regions=(2, 3), inter=1.0, losses=0.6, links=0.25, inter_lf=0.7, units=(2, 5), load=0.2, bdu=0.2,
            demand_cost=0.6, tight=0.2, fcas=0.0, generic=0.05), nontrivial, extra),
        mkt.agree_part('mixed', 500, 15000, dict(regions=(1, 3), load=0.3, bdu=0.25, inter=0.7, demand_cost=0.5),
                       nontrivial, extra),
    ]
