"""C09: elastic constraints are broken only at their stated price, and the reported violation is the real one."""
import hypothesis.strategies as st

import gen_market as gm
import mkt
import refmarket as rm
from core import Part, check

ID = 'C09'
RULE = ('hypothesis draws markets in which most constraint families carry a violation cost (a number or a per-set '
        'table), set either with the setter or afterwards with make_constraints_elastic; cost, dispatch and the '
        'reported violation degree of every family are compared with the reference.  Non-trivial: some constraint is '
        'violated in the optimum')
ASSUMPTIONS = ['violation degrees of tie break constraints are not decided (several optimal splits)']

FAMILIES = {'demand_cost': ['demand'], 'fcas_cost': ['fcas'], 'generic_cost': ['generic'],
            'capacity_cost': ['unit_bid_capacity'], 'uigf_cost': ['uigf_capacity'],
            'ramp_cost': ['ramp_up', 'ramp_down', 'bidirectional_ramp_up', 'bidirectional_ramp_down'],
            'fast_start_cost': ['fast_start'], 'fcas_max_cost': ['fcas_max_availability'],
            'joint_ramp_cost': ['joint_ramping_raise_reg', 'joint_ramping_lower_reg', 'joint_ramping_raise_reg_bdu',
                                'joint_ramping_lower_reg_bdu'],
            'contingency_cost': ['joint_capacity'], 'regulation_cost': ['energy_and_regulation_capacity']}
TABLE = {'demand_cost': 'demand', 'fcas_cost': 'fcas_req', 'generic_cost': 'generic', 'capacity_cost': 'capacity',
         'uigf_cost': 'uigf', 'ramp_cost': 'ramp', 'fast_start_cost': 'fast_start', 'fcas_max_cost': 'fcas_max',
         'joint_ramp_cost': 'joint_ramp', 'contingency_cost': 'contingency', 'regulation_cost': 'regulation'}


@st.composite
def case(draw, **feat):
    S = draw(gm.scenario(**feat))
    late = [k for k in sorted(FAMILIES) if S.get(k) is not None and draw(st.integers(0, 2)) == 0]
    return {'S': S, 'late': late}


def run(c):
    S, late = c['S'], c['late']
    early = {k: v for k, v in S.items() if k not in late}
    m = rm.build(early)
    names = m.get_constraint_set_names()
    check(len(names) == len(set(names)), 'constraint set names repeat: %s', names)
    for k in late:
        for g in FAMILIES[k]:
            if g in names:
                m.make_constraints_elastic(g, rm.vcost(S[k]))
    ref, out, v = rm.agree(S, m=m)
    ls = mkt.labels(S, ref, out)
    if late:
        ls.append('made_elastic_afterwards')
    if out is None:
        return {'nontrivial': False, 'labels': ls}
    for g in ref.sets:
        if g != 'tie_break':
            check(g in names, 'constraint set %s is missing from %s', g, names)
    tot = rm.violation_totals(ref, ref.pinned_values)
    broken = False
    for k, gs in FAMILIES.items():
        if S.get(k) is None or not S.get(TABLE[k]):
            continue
        for g in gs:
            if g not in names:
                continue
            got = m.get_elastic_constraints_violation_degree(g)
            want = tot.get(g, 0.0)
            check(abs(got - want) < 2e-3, 'reported violation of %s is %.5f, dispatch violates it by %.5f', g, got, want)
            broken = broken or want > 1e-3
    return {'nontrivial': broken, 'labels': ls}


def parts():
    feat = dict(units=(1, 4), regions=(1, 3), soft=0.95, demand_cost=0.95, tight=0.4, capacity=0.3, uigf=0.15, ramp=0.4,
                fast_start=0.25, fcas=0.5, generic=0.35, fcas_infeasible=0.4, inter=0.5, losses=0.2, bdu=0.2)
    return [Part('elastic', lambda: case(**feat), run, 1100, 35000),
            Part('elastic_fcas', lambda: case(**dict(feat, fcas=1.0, fcas_max=0.6, joint_ramp=0.6, cont_trap=0.6,
                                                     reg_trap=0.6, generic=0.2)), run, 500, 15000)]
