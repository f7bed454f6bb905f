"""Shared pieces of the market checks (C01..C13)."""
import refmarket as rm
import gen_market as gm
from core import Part, Skip, Violation, check

FEATURES = ['capacity', 'uigf', 'ramp', 'scada', 'fast_start', 'demand', 'fcas_req', 'fcas_max', 'joint_ramp',
            'contingency', 'regulation', 'inter', 'losses', 'generic', 'tie_break']


def labels(S, ref=None, out=None):
    ls = [k for k in FEATURES if S.get(k)]
    if any(len(u['sides']) == 2 for u in S['units']):
        ls.append('bidirectional')
    if any(u['sides'] == ['load'] for u in S['units']):
        ls.append('load')
    if any(k['name'] != k['link'] for k in S.get('inter') or []):
        ls.append('links')
    if S.get('run_type'):
        ls.append('run_' + S['run_type'])
    if any(k.endswith('_cost') for k in S):
        ls.append('elastic')
    if S.get('perm'):
        ls.append('permuted')
    if ref is not None:
        ls.append('infeasible' if out is None else 'feasible')
        if out is not None:
            vt = rm.violation_totals(ref, ref.pinned_values)
            ls += ['violated_' + g for g, v in vt.items() if v > 1e-3]
    return ls


def binding(ref, values, groups):
    """Number of rows of the groups that hold with equality at the given dispatch (i.e. shape the outcome)."""
    n = 0
    for g in groups:
        for k, typ, label, cost in ref.sets.get(g, []):
            x = rm.row_value(ref, k, values)
            lo, hi = ref.lp.rows[k][1], ref.lp.rows[k][2]
            if min(abs(x - lo), abs(x - hi)) < 1e-3:
                n += 1
    return n


def agree_part(name, quick, thorough, feats, nontrivial=None, extra=None):
    """A part that runs the universal dispatch oracle plus extra predicates on feature-focused scenarios."""

    def run(S):
        m = rm.build(S)
        ref, out, v = rm.agree(S, m=m)
        ls = labels(S, ref, out)
        nt = True
        if out is not None and extra is not None:
            more = extra(S, m, ref, out)
            if more:
                ls += more
        if nontrivial is not None:
            nt = bool(nontrivial(S, ref, out))
        return {'nontrivial': nt, 'labels': ls}

    return Part(name, lambda: gm.scenario(**feats), run, quick, thorough)


def everything(S, m, ref, out, prices=True):
    """All results a dispatched market reports, against the reference: region summary, violation degrees, FCAS
    availability, prices."""
    from checks import c01, c03, c07, c09
    ls = list(c01.extra(S, m, ref, out))
    tot = rm.violation_totals(ref, ref.pinned_values)
    names = m.get_constraint_set_names()
    for k, gs in c09.FAMILIES.items():
        if S.get(k) is None or not S.get(c09.TABLE[k]):
            continue
        for g in gs:
            if g in names:
                got = m.get_elastic_constraints_violation_degree(g)
                check(abs(got - tot.get(g, 0.0)) < 2e-3, 'reported violation of %s is %.5f, dispatch violates it by %.5f',
                      g, got, tot.get(g, 0.0))
    ls += c07.availability(S, m, ref, out)
    if prices:
        _, p, q = c03.prices_of(S, m)
        if p or q:
            try:
                c03.marginal(ref, out, p, q)
                ls.append('priced')
            except Skip:
                ls.append('price_undecided')
    return ls
