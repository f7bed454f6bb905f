"""C13: a market that is edited and re-dispatched behaves like a freshly built one."""
import copy

import hypothesis.strategies as st

import gen_market as gm
import mkt
import refmarket as rm
from core import Part, check

ID = 'C13'
RULE = ('hypothesis draws a market and a history of up to 6 edits (any setter re-issued with a changed table, fewer rows '
        'or a different violation cost; constraints made elastic; fast start limits removed; dispatches in between); '
        'the final dispatch is compared with the reference model of the last-issued inputs.  Non-trivial: at least one '
        'table was really changed after the first dispatch, and the result was decided')
ASSUMPTIONS = ['volume and price bids are re-issued together, interconnectors with their losses, and tie break '
               'constraints after bids, as the documentation of the setters implies']

EDITABLE, COST, edit = rm.EDITABLE, rm.COST, rm.edit


@st.composite
def case(draw, **feat):
    S = draw(gm.scenario(**feat))
    avail = [k for k in EDITABLE if k == 'bids' or S.get(k)]
    # families that are only added later in the history
    late = []
    if draw(st.integers(0, 2)) == 0:
        late = [k for k in rm.STEPS[1:] if S.get(k) and k not in ('demand', 'tie_break') and draw(st.integers(0, 2)) == 0]
    todo = list(late)
    hist = []
    for _ in range(draw(st.integers(1, 6))):
        kind = draw(st.sampled_from(['edit', 'edit', 'edit', 'dispatch', 'rerun', 'remove_fast_start', 'elastic', 'add',
                                     'reject']))
        if kind == 'dispatch':
            hist.append(['dispatch'])
        elif kind == 'rerun':
            hist.append(['rerun', draw(st.sampled_from([60.0, 15000.0]))])
        elif kind == 'add':
            if todo:
                hist.append(['add', todo.pop(draw(st.integers(0, len(todo) - 1)))])
        elif kind == 'elastic':
            ks = [k for k in sorted(COST) if S.get(k)]
            if ks:
                hist.append(['elastic', draw(st.sampled_from(ks)), draw(st.sampled_from([300.0, 9000.0, 50000.0])),
                             draw(st.booleans())])
        elif kind == 'reject':
            hist.append(['reject', draw(st.sampled_from(avail))])
        elif kind == 'remove_fast_start':
            if S.get('fast_start'):
                hist.append(['remove_fast_start'])
        else:
            key = draw(st.sampled_from(avail))
            hist.append(['edit', key, draw(st.sampled_from([0.5, 1.5, 0.9, 1.1, 0.0])), draw(st.integers(0, 3)),
                         draw(st.sampled_from(['keep', 'keep', 'soft', 'hard']))])
    hist += [['add', k] for k in todo]
    return {'S': S, 'hist': hist, 'late': late, 'first': draw(st.booleans())}


FAMILY = {'inter': ['inter', 'losses'], 'ramp': ['ramp', 'scada', 'ramp_cost'], 'bids': ['bids']}


def without(S, keys):
    T = dict(S)
    for k in keys:
        for x in FAMILY.get(k, [k, COST.get(k)]):
            T.pop(x, None)
    return T


def bring(T, S, k):
    """Scenario T plus family k as first stated in S."""
    T = dict(T)
    for x in FAMILY.get(k, [k, COST.get(k)]):
        if x in S:
            T[x] = copy.deepcopy(S[x])
    return T


def run(c):
    import pandas as pd
    from checks import c09
    S = c['S']
    cur = without(S, c.get('late') or [])
    m = rm.build(cur)
    changed = dispatched = False
    ls = []

    def look(kw=None, final=False):
        """Dispatch and compare all results with the reference of the current inputs."""
        ref, out, v = rm.agree(cur, m=m, dispatch_kw=kw)
        if out is not None:
            mkt.everything(cur, m, ref, out, prices=final)
        return ref, out

    if c['first']:
        look()
        dispatched = True
    for h in c['hist']:
        ls.append(h[0] if h[0] != 'edit' else 'edit_' + h[1])
        if h[0] == 'dispatch':
            look()
            dispatched = True
        elif h[0] == 'rerun':
            look(dict(energy_market_ceiling_price=h[1], energy_market_floor_price=-1000.0,
                      fcas_market_ceiling_price=h[1], allow_over_constrained_dispatch_re_run=True))
            dispatched = True
        elif h[0] == 'remove_fast_start':
            m.remove_fast_start_constraints()
            cur = {k: v for k, v in cur.items() if k not in ('fast_start', 'fast_start_cost')}
            changed = True
        elif h[0] == 'add':
            cur = bring(cur, S, h[1])
            rm.apply(m, cur, rm.frames(cur), h[1])
            changed = True
        elif h[0] == 'elastic':
            _, key, cost, per_set = h
            if not cur.get(key):
                continue
            if per_set and key in ('fcas_req', 'generic'):
                cost = {q['set']: cost + 10 * i for i, q in enumerate(cur[key])}
            for g in c09.FAMILIES[COST[key]]:
                if g in m.get_constraint_set_names():
                    m.make_constraints_elastic(g, rm.vcost(cost))
            cur = dict(cur)
            cur[COST[key]] = cost
            changed = True
        elif h[0] == 'reject':
            if not cur.get(h[1]):
                continue
            F = rm.frames(edit(cur, h[1], 0.5, 1, 'keep'))
            name = {'bids': 'volume_bids'}.get(h[1], h[1])
            F[name] = F[name].assign(surprise=1.0)
            try:
                rm.apply(m, cur, F, h[1])
            except Exception:
                pass
            else:
                check(False, 'a table with an unexpected column is accepted (%s)', h[1])
        else:
            _, key, factor, drop, cost = h
            if not cur.get(key):
                if key != 'fast_start' or key in (c.get('late') or []):
                    continue
                cur = bring(cur, S, key)
            cur = edit(cur, key, factor, drop, cost)
            rm.apply(m, cur, rm.frames(cur), key)
            if key == 'bids' and cur.get('tie_break') is not None:
                rm.apply(m, cur, rm.frames(cur), 'tie_break')
            changed = True
    ref, out = look(final=True)
    return {'nontrivial': changed and dispatched, 'labels': ls + mkt.labels(cur, ref, out)}


def parts():
    wide = dict(units=(1, 4), regions=(1, 3), capacity=0.35, uigf=0.2, ramp=0.35, fast_start=0.3, fcas=0.5, generic=0.35,
                fcas_max=0.4, joint_ramp=0.4, cont_trap=0.4, reg_trap=0.4, tie_break=0.15, same_price=0.3,
                demand_cost=0.8, soft=0.6, bdu=0.2, load=0.15, perm=0.3, losses=0.6)
    return [Part('history', lambda: case(**wide), run, 1000, 30000)]
