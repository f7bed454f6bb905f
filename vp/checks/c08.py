"""C08: FCAS requirements and generic constraints are met by the dispatched variables they refer to."""
import mkt
import refmarket as rm
from core import check

ID = 'C08'
RULE = ('hypothesis draws markets with FCAS requirement sets (several regions and services per set, all three '
        'directions) and generic constraints over units, regions and interconnectors (shared with requirement sets '
        'too); the left hand sides are recomputed from reported enablement, energy and flows.  Non-trivial: a '
        'requirement or generic constraint binds or is violated at its price')
ASSUMPTIONS = []


def lhs(S, out, name):
    """Left hand side of a generic constraint set, from reported results only."""
    x = 0.0
    bdu = {u['unit'] for u in S['units'] if len(u['sides']) == 2}
    reg = {u['unit']: u['region'] for u in S['units']}
    for q in S.get('generic_units') or []:
        if q['set'] == name:
            for (u, side, sv), v in out.disp.items():
                if u == q['unit'] and sv == q['service']:
                    sign = -1.0 if (u in bdu and sv == 'energy' and side == 'load') else 1.0
                    x += q['coef'] * sign * v
    for q in S.get('generic_regions') or []:
        if q['set'] == name:
            x += sum(q['coef'] * v for (u, side, sv), v in out.disp.items() if reg[u] == q['region'] and
                     sv == q['service'])
    for q in S.get('generic_inters') or []:
        if q['set'] == name:
            x += sum(q['coef'] * k.get('gcf', 1) * out.flow[(k['name'], k['link'])] for k in S['inter']
                     if k['name'] == q['inter'])
    return x


def deg(x, typ, rhs):
    if typ == '<=':
        return max(0.0, x - rhs)
    if typ == '>=':
        return max(0.0, rhs - x)
    return abs(x - rhs)


def extra(S, m, ref, out):
    reg = {u['unit']: u['region'] for u in S['units']}
    total, soft = 0.0, True
    for q in S.get('fcas_req') or []:
        x = lhs(S, out, q['set'])
        x += sum(v for (u, side, sv), v in out.disp.items() if reg[u] in q['regions'] and
                 sv in rm.aslist(q['service']))
        d = deg(x, q.get('type') or '=', q['volume'])
        c = S.get('fcas_cost')
        if c is None:
            soft = False
        if (c.get(q['set']) if isinstance(c, dict) else c) is not None:
            total += d
        else:
            check(d < 1e-3, 'requirement %s %s %s, provided %.4f', q['set'], q.get('type'), q['volume'], x)
    if S.get('fcas_req') and soft:
        got = m.get_elastic_constraints_violation_degree('fcas')
        check(abs(got - total) < 1e-3, 'FCAS shortfall %.4f, reported %.4f', total, got)
    total, soft = 0.0, True
    for g in S.get('generic') or []:
        x = lhs(S, out, g['set'])
        d = deg(x, g['type'], g['rhs'])
        c = S.get('generic_cost')
        if c is None:
            soft = False
        if (c.get(g['set']) if isinstance(c, dict) else c) is not None:
            total += d
        else:
            check(d < 1e-3, 'generic constraint %s: %.4f %s %s does not hold', g['set'], x, g['type'], g['rhs'])
    if S.get('generic') and soft:
        got = m.get_elastic_constraints_violation_degree('generic')
        check(abs(got - total) < 1e-3, 'generic constraints broken by %.4f, reported %.4f', total, got)
    return []


def nontrivial(S, ref, out):
    return out is not None and mkt.binding(ref, ref.pinned_values, ['fcas', 'generic']) > 0 or (
        out is not None and any(rm.violation_totals(ref, ref.pinned_values).get(g, 0) > 1e-3
                                for g in ('fcas', 'generic')))


def parts():
    return [
        mkt.agree_part('generic', 700, 20000, dict(
            regions=(1, 3), units=(2, 5), generic=1.0, inter=0.8, losses=0.3, links=0.3, fcas=0.4, bdu=0.2, load=0.2,
            demand_cost=0.8), nontrivial, extra),
        mkt.agree_part('requirements', 700, 20000, dict(
            regions=(1, 3), units=(2, 5), fcas=1.0, generic=0.3, reg=0.7, fcas_max=0.2, cont_trap=0.2, reg_trap=0.2,
            joint_ramp=0.1, demand_cost=0.9, bdu=0.2, load=0.2, fcas_infeasible=0.25), nontrivial, extra),
    ]
