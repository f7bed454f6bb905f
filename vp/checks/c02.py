"""C02: dispatch is feasible and of least cost; infeasible markets are reported as such."""
import mkt
from core import check

ID = 'C02'
RULE = ('hypothesis draws whole markets mixing all input tables (bids, limits, ramping, fast start, FCAS, network, '
        'losses, generic constraints, soft and hard constraints, tie breaks); the least cost is computed by an '
        'independently written MILP solved with HiGHS; non-trivial: at least two competing energy bids and at least '
        'one further constraint family')
ASSUMPTIONS = ['both solvers are exact to 1e-6; an infeasibility verdict is only compared when it is not marginal']


def nontrivial(S, ref, out):
    fam = sum(1 for k in ('capacity', 'uigf', 'ramp', 'fast_start', 'fcas_req', 'inter', 'generic') if S.get(k))
    return fam >= 1 and sum(1 for b, c in ref.bid_cols if b['service'] == 'energy' for _ in c) >= 2


def extra(S, m, ref, out):
    for k, v in out.disp.items():
        check(v > -1e-5, 'negative dispatch %s of %s', v, k)
    return []


def parts():
    mixed = dict(regions=(1, 3), units=(2, 5), capacity=0.3, uigf=0.15, ramp=0.35, fast_start=0.2, fcas=0.5,
                 generic=0.3, load=0.2, bdu=0.2, tie_break=0.1, demand_cost=0.7, soft=0.7, fcas_infeasible=0.15)
    return [
        mkt.agree_part('energy', 400, 15000, dict(fcas=0.0, bands=(1, 5), units=(1, 6), neg_price=0.4, lf=0.7,
                                                  demand_cost=0.5), nontrivial, extra),
        mkt.agree_part('everything', 800, 30000, mixed, nontrivial, extra),
        mkt.agree_part('hard', 300, 10000, dict(mixed, soft=0.1, demand_cost=0.1, fcas_infeasible=0.0), nontrivial,
                       extra),
    ]
