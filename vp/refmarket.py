"""Reference market: an independent, direct statement of the dispatch problem, solved with HiGHS (scipy), and the
driver that feeds the same scenario to nempy through its public API.

A scenario is a plain JSON dict; every key except regions/units/bids is optional:

 interval       minutes
 regions        [name]
 units          [{unit, region, sides: [generator|load], lf: {side: factor}}]         two sides = bidirectional
 bids           [{unit, side, service, vol: [...], price: [...]}]
 capacity       [{unit, side, cap}]                         capacity_cost
 uigf           [{unit, cap}]                               uigf_cost
 ramp           [{unit, side, init, up, down}]              ramp_cost   (MW, MW/h)
 scada          [{unit, up|None, down|None}]
 run_type, ramp_fs  [{unit, current_mode, end_mode, min_loading, since|None}]
 fast_start     [{unit, end_mode, time, m2, m4, min}]       fast_start_cost
 demand         {region: MW}                                demand_cost
 fcas_req       [{set, service, regions, volume, type}]     fcas_cost (number | {set: cost})
 fcas_max       [{unit, side, service, max}]                fcas_max_cost
 joint_ramp     [{unit, init, up|None, down|None}]          joint_ramp_cost
 contingency / regulation  [{unit, side, service, max, emin, low, high, emax}]  contingency_cost / regulation_cost
 inter          [{name, link, from, to, min, max, from_lf, to_lf, gcf}]
 losses         [{name, link, from_share, lin, quad, asym, breaks: [..]}]
 generic        [{set, type, rhs}]   generic_cost (number | {set: cost})
 generic_units  [{set, unit, service, coef}]  generic_regions [{set, region, service, coef}]
 generic_inters [{set, inter, coef}]
 tie_break      cost
 perm           integer: row orders / index labels / setter order
 past           integer: not 0 = the market held other tables before (see past()), all of them replaced since
"""
import copy
import random

import numpy as np

from core import HarnessError, Violation, check

TOL = 1e-4
MIN_BID = 1e-4     # nempy ignores bid bands below this volume (documented by its bid handling)


def aslist(x):
    return x if isinstance(x, list) else [x]


def loss_fn(l):
    lin, quad, asym = l['lin'], l['quad'], l.get('asym', 0.0)
    return lambda flow: lin * abs(flow) + quad * flow * flow + asym * flow


# --------------------------------------------------------------------------------------------------------------
class LP:
    """Tiny modelling layer: named columns and rows over scipy's HiGHS."""

    def __init__(self):
        self.names, self.lb, self.ub, self.c, self.integ = {}, [], [], [], []
        self.rows = []   # (dict col->coef, lo, hi, tag)

    def var(self, name, lb=0.0, ub=np.inf, cost=0.0, integer=False):
        assert name not in self.names, name
        self.names[name] = len(self.lb)
        self.lb.append(lb)
        self.ub.append(ub)
        self.c.append(cost)
        self.integ.append(1 if integer else 0)
        return name

    def row(self, coefs, typ, rhs, tag=None):
        d = {}
        for k, v in coefs:
            d[k] = d.get(k, 0.0) + v
        lo = rhs if typ in ('>=', '=') else -np.inf
        hi = rhs if typ in ('<=', '=') else np.inf
        self.rows.append([d, lo, hi, tag])
        return len(self.rows) - 1

    def copy(self):
        n = LP()
        n.names = dict(self.names)
        n.lb, n.ub, n.c, n.integ = list(self.lb), list(self.ub), list(self.c), list(self.integ)
        n.rows = [[dict(r[0]), r[1], r[2], r[3]] for r in self.rows]
        return n

    def solve(self, relax=False):
        """-> (objective, {name: value}) or None if infeasible."""
        from scipy.optimize import milp, LinearConstraint, Bounds
        from scipy.sparse import csr_matrix
        n = len(self.lb)
        ri, ci, vals, lo, hi = [], [], [], [], []
        m = 0
        for d, l, h, _ in self.rows:
            if not d:
                if l > 1e-9 or h < -1e-9:
                    return None
                continue
            for k, v in d.items():
                ri.append(m)
                ci.append(self.names[k])
                vals.append(v)
            lo.append(l)
            hi.append(h)
            m += 1
        cons = []
        if m:
            cons = [LinearConstraint(csr_matrix((vals, (ri, ci)), shape=(m, n)), lo, hi)]
        lb, ub = np.array(self.lb, float), np.array(self.ub, float)
        if (lb > ub + 1e-12).any():
            return None
        integ = np.zeros(n) if relax else np.array(self.integ)
        res = milp(np.array(self.c, float), integrality=integ, bounds=Bounds(lb, ub), constraints=cons,
                   options={'mip_rel_gap': 0.0, 'presolve': True})
        if res.status == 0:
            return res.fun, dict(zip(self.names, res.x))
        if res.status == 2:
            return None
        if res.status == 3:
            return -np.inf, {}
        # retry without presolve before giving up
        res = milp(np.array(self.c, float), integrality=integ, bounds=Bounds(lb, ub), constraints=cons,
                   options={'mip_rel_gap': 0.0, 'presolve': False})
        if res.status == 0:
            return res.fun, dict(zip(self.names, res.x))
        if res.status == 2:
            return None
        if res.status == 3:
            return -np.inf, {}
        raise HarnessError('reference solver status %s: %s' % (res.status, res.message))


class Ref:
    """The reference LP/MILP of a scenario."""

    def __init__(self, S):
        self.S = S
        self.lp = LP()
        self.sets = {}          # group -> [(row index, type, label)]
        self.build()

    # -- helpers -------------------------------------------------------------------------------------------
    def energy(self, unit, side=None):
        """Terms of the unit's energy.  side None: net injection of a bidirectional unit."""
        out = []
        for b, cols in self.bid_cols:
            if b['unit'] == unit and b['service'] == 'energy':
                if side is None:
                    out += [(c, 1.0 if b['side'] == 'generator' else -1.0) for c in cols]
                elif b['side'] == side:
                    out += [(c, 1.0) for c in cols]
        return out

    def serv(self, unit, side, service):
        return [(c, 1.0) for b, cols in self.bid_cols for c in cols
                if b['unit'] == unit and b['service'] == service and (side is None or b['side'] == side)]

    def limit(self, group, coefs, typ, rhs, cost, label=None):
        """A constraint of a group, soft if cost is not None.  (A unit limit of a unit without
        offers constrains nothing; a requirement nobody can contribute to remains a requirement.)"""
        if not coefs and cost is None and group not in ('demand', 'fcas', 'generic'):
            return
        coefs = list(coefs)
        k = len(self.lp.rows)
        if cost is not None:
            if typ in ('<=', '='):
                coefs.append((self.lp.var('over_%d' % k, cost=cost), -1.0))
            if typ in ('>=', '='):
                coefs.append((self.lp.var('under_%d' % k, cost=cost), 1.0))
        self.lp.row(coefs, typ, rhs, (group, label))
        self.sets.setdefault(group, []).append((k, typ, label, cost))

    @staticmethod
    def cost_of(c, name):
        return c.get(name) if isinstance(c, dict) else c

    # -- the market ----------------------------------------------------------------------------------------
    def build(self):
        S, lp = self.S, self.lp
        unit = {u['unit']: u for u in S['units']}
        self.unit = unit
        bdu = {u['unit'] for u in S['units'] if len(u['sides']) == 2}
        self.bdu = bdu
        hours = S.get('interval', 5) / 60.0
        self.hours = hours
        # bids
        self.bid_cols = []
        for i, b in enumerate(S['bids']):
            cols = []
            for j, v in enumerate(b['vol']):
                if v < MIN_BID:
                    continue
                price = b['price'][j] if j < len(b['price']) else 0.0
                if b['service'] == 'energy':
                    cost = price / unit[b['unit']]['lf'][b['side']]
                    if b['side'] == 'load':
                        cost = -cost
                else:
                    cost = price
                cols.append(lp.var('x%d_%d' % (i, j), 0.0, v, cost))
            self.bid_cols.append((b, cols))
        # interconnectors and losses
        loss_by = {(l['name'], l['link']): l for l in S.get('losses') or []}
        self.inj = {r: [] for r in S['regions']}     # terms of net supply into each region
        links = {}
        for k in S.get('inter') or []:
            f = lp.var('flow|%s|%s' % (k['name'], k['link']), k['min'], k['max'])
            self.inj[k['to']].append((f, k['to_lf']))
            self.inj[k['from']].append((f, -k['from_lf']))
            if k['name'] != k['link']:
                links.setdefault(k['name'], []).append(k)
            l = loss_by.get((k['name'], k['link']))
            if l is not None:
                big = max(abs(k['min']), abs(k['max']))
                loss = lp.var('loss|%s|%s' % (k['name'], k['link']), -big, big)
                if k['from'] == k['to']:
                    raise HarnessError('self loop')
                self.inj[k['from']].append((loss, -l['from_share']))
                self.inj[k['to']].append((loss, -(1 - l['from_share'])))
                pts = sorted(l['breaks'])
                fn = loss_fn(l)
                w = [lp.var('w|%s|%s|%d' % (k['name'], k['link'], i), 0.0, 1.0) for i in range(len(pts))]
                lp.row([(x, 1.0) for x in w], '=', 1.0, 'weights')
                lp.row([(x, p) for x, p in zip(w, pts)] + [(f, -1.0)], '=', 0.0, 'flowlink')
                lp.row([(x, fn(p)) for x, p in zip(w, pts)] + [(loss, -1.0)], '=', 0.0, 'losslink')
                if len(pts) > 2:
                    z = [lp.var('z|%s|%s|%d' % (k['name'], k['link'], i), 0.0, 1.0, integer=True)
                         for i in range(len(pts) - 1)]
                    lp.row([(x, 1.0) for x in z], '=', 1.0, 'seg')
                    for i in range(len(pts)):
                        near = [z[j] for j in (i - 1, i) if 0 <= j < len(z)]
                        lp.row([(w[i], 1.0)] + [(x, -1.0) for x in near], '<=', 0.0, 'sos2')
        for name, ks in links.items():
            if len(ks) > 1:
                ys = []
                for k in ks:
                    y = lp.var('y|%s|%s' % (name, k['link']), 0.0, 1.0, integer=True)
                    ys.append(y)
                    f = 'flow|%s|%s' % (name, k['link'])
                    lp.row([(f, 1.0), (y, -k['max'])], '<=', 0.0, 'sos1')
                    lp.row([(f, 1.0), (y, -k['min'])], '>=', 0.0, 'sos1')
                lp.row([(y, 1.0) for y in ys], '<=', 1.0, 'sos1')
        # energy balance
        self.market_rows = {}
        for b, cols in self.bid_cols:
            if b['service'] == 'energy':
                s = 1.0 if b['side'] == 'generator' else -1.0
                self.inj[unit[b['unit']]['region']] += [(c, s) for c in cols]
        for r, d in (S.get('demand') or {}).items():
            self.market_rows[('energy', r)] = len(lp.rows)
            self.limit('demand', self.inj[r], '=', d, S.get('demand_cost'), r)
        # fcas requirements (and generic lhs attached to them)
        extra = self.generic_lhs()
        for q in S.get('fcas_req') or []:
            terms = [(c, 1.0) for b, cols in self.bid_cols for c in cols
                     if b['service'] in aslist(q['service']) and unit[b['unit']]['region'] in q['regions']]
            terms += extra.get(q['set'], [])
            self.market_rows[('fcas', q['set'])] = len(lp.rows)
            self.limit('fcas', terms, q.get('type') or '=', q['volume'], self.cost_of(S.get('fcas_cost'), q['set']),
                       q['set'])
        for g in S.get('generic') or []:
            self.limit('generic', extra.get(g['set'], []), g['type'], g['rhs'],
                       self.cost_of(S.get('generic_cost'), g['set']), g['set'])
        # unit limits
        for q in S.get('capacity') or []:
            self.limit('unit_bid_capacity', self.energy(q['unit'], q['side']), '<=', q['cap'],
                       S.get('capacity_cost'), q['unit'] + '/' + q['side'])
        for q in S.get('uigf') or []:
            self.limit('uigf_capacity', self.energy(q['unit'], 'generator'), '<=', q['cap'], S.get('uigf_cost'),
                       q['unit'])
        self.ramping()
        self.fast_start()
        self.fcas()
        self.tie_break()

    def generic_lhs(self):
        S = self.S
        out = {}
        for q in S.get('generic_units') or []:
            if q['service'] == 'energy' and q['unit'] in self.bdu:
                t = self.energy(q['unit'], None)
            else:
                t = self.serv(q['unit'], None, q['service'])
            out.setdefault(q['set'], []).extend([(c, q['coef'] * s) for c, s in t])
        for q in S.get('generic_regions') or []:
            for b, cols in self.bid_cols:
                if b['service'] == q['service'] and self.unit[b['unit']]['region'] == q['region']:
                    out.setdefault(q['set'], []).extend([(c, q['coef']) for c in cols])
        for q in S.get('generic_inters') or []:
            for k in S.get('inter') or []:
                if k['name'] == q['inter']:
                    out.setdefault(q['set'], []).append(
                        ('flow|%s|%s' % (k['name'], k['link']), q['coef'] * k.get('gcf', 1)))
        return out

    # reachable output range over the interval, in MW
    def ramp_ranges(self):
        """{(unit, side|None): (lowest, highest)} ; None side = net output of a bidirectional unit."""
        S, h = self.S, self.hours
        scada = {s['unit']: s for s in S.get('scada') or []}
        fs = {f['unit']: f for f in S.get('ramp_fs') or []} if S.get('run_type', 'no') != 'no' else {}
        run = {'no': 'no', 'first': 'first', 'second': 'second'}[S.get('run_type', 'no')]
        out = {}
        rows = {}
        for q in S.get('ramp') or []:
            rows.setdefault(q['unit'], {})[q['side']] = q
        for u, by_side in rows.items():
            sc = scada.get(u, {})
            if u in self.bdu:
                g, l = by_side['generator'], by_side['load']
                x0 = g['init']
                # highest: if charging, first unwind the charge at the load side's downward rate, then generate.
                if x0 >= 0:
                    hi = x0 + g['up'] * h
                else:
                    t0 = -x0 / l['down'] if l['down'] > 0 else np.inf
                    hi = x0 + l['down'] * h if t0 >= h else (h - t0) * g['up']
                if x0 <= 0:
                    lo = x0 - l['up'] * h
                else:
                    t0 = x0 / g['down'] if g['down'] > 0 else np.inf
                    lo = x0 - g['down'] * h if t0 >= h else -(h - t0) * l['up']
                if sc.get('up') is not None:
                    hi = min(hi, x0 + sc['up'] * h)
                if sc.get('down') is not None:
                    lo = max(lo, x0 - sc['down'] * h)
                out[(u, None)] = (lo, hi)
                continue
            for side, q in by_side.items():
                up, down = q['up'], q['down']
                if sc.get('up') is not None:
                    up = min(up, sc['up'])
                if sc.get('down') is not None:
                    down = min(down, sc['down'])
                hi, lo = q['init'] + up * h, q['init'] - down * h
                f = fs.get(u)
                if f is not None:
                    if run == 'first' and f['current_mode'] in (0, 1, 2):
                        continue
                    if run == 'second':
                        if f['end_mode'] in (0, 1, 2):
                            continue
                        if f.get('since') is not None:
                            hi = f['min_loading'] + f['since'] / 60.0 * up
                out[(u, side)] = (lo, hi)
        return out

    def ramping(self):
        S = self.S
        c = S.get('ramp_cost')
        for (u, side), (lo, hi) in self.ramp_ranges().items():
            g = ('bidirectional_ramp_up', 'bidirectional_ramp_down') if side is None else ('ramp_up', 'ramp_down')
            self.limit(g[0], self.energy(u, side), '<=', hi, c, u)
            self.limit(g[1], self.energy(u, side), '>=', lo, c, u)

    def fast_start(self):
        S = self.S
        c = S.get('fast_start_cost')
        for f in S.get('fast_start') or []:
            for side in self.unit[f['unit']]['sides']:
                e = self.energy(f['unit'], side)
                m = f['end_mode']
                if m in (0, 1):
                    self.limit('fast_start', e, '<=', 0.0, c, f['unit'])
                elif m == 2:
                    t = f['time'] / f['m2'] * f['min']
                    self.limit('fast_start', e, '<=', t, c, f['unit'])
                    self.limit('fast_start', e, '>=', t, c, f['unit'])
                elif m == 3:
                    self.limit('fast_start', e, '>=', f['min'], c, f['unit'])
                elif m == 4:
                    self.limit('fast_start', e, '>=', f['min'] * (1 - f['time'] / f['m4']), c, f['unit'])

    def fcas(self):
        S, h = self.S, self.hours
        for q in S.get('fcas_max') or []:
            self.limit('fcas_max_availability', self.serv(q['unit'], q['side'], q['service']), '<=', q['max'],
                       S.get('fcas_max_cost'), q['unit'] + q['service'])
        has = {(b['unit'], b['side'], b['service']) for b, cols in self.bid_cols if cols}
        c = S.get('joint_ramp_cost')
        fs = {f['unit']: f for f in S.get('ramp_fs') or []} if S.get('run_type', 'no') != 'no' else {}
        for q in S.get('joint_ramp') or []:
            u = q['unit']
            up, down = q.get('up'), q.get('down')
            f = fs.get(u)
            hi = None if up is None else q['init'] + up * h
            lo = None if down is None else q['init'] - down * h
            if f is not None:
                if S['run_type'] == 'first' and f['current_mode'] in (0, 1, 2):
                    continue
                if S['run_type'] == 'second':
                    if f['end_mode'] in (0, 1, 2):
                        continue
                    if f.get('since') is not None and up is not None:
                        hi = f['min_loading'] + f['since'] / 60.0 * up
            if u in self.bdu:
                # the joint limit covers the sides on which the unit offers the regulation service
                for service, bound, sgn, typ, g in (('raise_reg', hi, 1.0, '<=', 'joint_ramping_raise_reg_bdu'),
                                                    ('lower_reg', lo, -1.0, '>=', 'joint_ramping_lower_reg_bdu')):
                    sides = [s for s in ('generator', 'load') if (u, s, service) in has]
                    if bound is None or not sides:
                        continue
                    t = []
                    for s in sides:
                        t += [(k, v if s == 'generator' else -v) for k, v in self.energy(u, s)]
                        t += [(k, sgn * v) for k, v in self.serv(u, s, service)]
                    self.limit(g, t, typ, bound, c, u)
                continue
            for s in self.unit[u]['sides']:
                # raise regulation needs room above (generator) / below (load) the energy target, lower the reverse.
                if (u, s, 'raise_reg') in has:
                    if s == 'generator':
                        if hi is not None:
                            self.limit('joint_ramping_raise_reg',
                                       self.energy(u, s) + self.serv(u, s, 'raise_reg'), '<=', hi, c, u)
                    elif up is not None:
                        # a load raises by reducing consumption
                        b = (hi - q['init'])
                        self.limit('joint_ramping_raise_reg', self.energy(u, s) + [(k, -v) for k, v in self.serv(
                            u, s, 'raise_reg')], '>=', q['init'] - b, c, u)
                if (u, s, 'lower_reg') in has:
                    if s == 'generator':
                        if lo is not None:
                            self.limit('joint_ramping_lower_reg', self.energy(u, s) + [(k, -v) for k, v in self.serv(
                                u, s, 'lower_reg')], '>=', lo, c, u)
                    elif down is not None:
                        self.limit('joint_ramping_lower_reg', self.energy(u, s) + self.serv(u, s, 'lower_reg'), '<=',
                                   q['init'] + (q['init'] - lo), c, u)
        for q in S.get('contingency') or []:
            u, s = q['unit'], q['side']
            up = (q['emax'] - q['high']) / q['max']
            dn = (q['low'] - q['emin']) / q['max']
            cont = self.serv(u, s, q['service'])
            if u in self.bdu:
                e = self.energy(u, None)
                r, l = self.serv(u, None, 'raise_reg'), self.serv(u, None, 'lower_reg')
            else:
                e = self.energy(u, s)
                r, l = self.serv(u, s, 'raise_reg'), self.serv(u, s, 'lower_reg')
                if s == 'load':
                    r, l = l, r
            self.limit('joint_capacity', e + [(k, up * v) for k, v in cont] + r, '<=', q['emax'],
                       S.get('contingency_cost'), u + q['service'])
            self.limit('joint_capacity', e + [(k, -dn * v) for k, v in cont] + [(k, -v) for k, v in l], '>=', q['emin'],
                       S.get('contingency_cost'), u + q['service'])
        for q in S.get('regulation') or []:
            u, s = q['unit'], q['side']
            up = (q['emax'] - q['high']) / q['max']
            dn = (q['low'] - q['emin']) / q['max']
            e = self.energy(u, s)
            if u in self.bdu and s == 'load':
                e = [(k, -v) for k, v in e]
            reg = self.serv(u, s, q['service'])
            self.limit('energy_and_regulation_capacity', e + [(k, up * v) for k, v in reg], '<=', q['emax'],
                       S.get('regulation_cost'), u + q['service'])
            self.limit('energy_and_regulation_capacity', e + [(k, -dn * v) for k, v in reg], '>=', q['emin'],
                       S.get('regulation_cost'), u + q['service'])

    def tied_pairs(self):
        """Pairs of equally priced (at the reference node) energy bids of different units, same region and side."""
        S = self.S
        items = []
        for i, (b, cols) in enumerate(self.bid_cols):
            if b['service'] != 'energy':
                continue
            for c in cols:
                j = int(c.split('_')[1])
                cost = b['price'][j] / self.unit[b['unit']]['lf'][b['side']]
                items.append((b['unit'], self.unit[b['unit']]['region'], b['side'], cost, c, b['vol'][j]))
        return [(p, q) for n, p in enumerate(items) for q in items[n + 1:]
                if p[0] != q[0] and p[1] == q[1] and p[2] == q[2] and p[3] == q[3]]

    def tie_break(self):
        c = self.S.get('tie_break')
        if c is None:
            return
        for p, q in self.tied_pairs():
            self.limit('tie_break', [(p[4], 1.0 / p[5]), (q[4], -1.0 / q[5])], '=', 0.0, c, (p[4], q[4]))

    # -- using it ------------------------------------------------------------------------------------------
    def solve(self, relax=False):
        return self.lp.solve(relax)

    def dispatch_terms(self):
        out = {}
        for b, cols in self.bid_cols:
            if cols:
                out.setdefault((b['unit'], b['side'], b['service']), []).extend([(c, 1.0) for c in cols])
        return out


# --------------------------------------------------------------------------------------------------------------
# Driving nempy

def frames(S):
    """The input tables of a scenario, in nempy's documented formats: {name: DataFrame}."""
    import pandas as pd
    rnd = random.Random(S.get('perm', 0))
    explicit = S.get('explicit_types', True) or any(s != 'generator' for u in S['units'] for s in u['sides'])
    shuffled = bool(S.get('perm', 0))

    def df(rows, cols):
        d = pd.DataFrame(rows, columns=cols)
        if shuffled and len(d) > 0:
            order = list(range(len(d)))
            rnd.shuffle(order)
            d = d.iloc[order]
            if rnd.random() < 0.5:
                d = d.reset_index(drop=True)
            elif rnd.random() < 0.5:
                d.index = [rnd.choice([7, 3, 0]) + 2 * i for i in range(len(d))]
            if rnd.random() < 0.3:
                c = list(d.columns)
                rnd.shuffle(c)
                d = d.loc[:, c]
        return d

    def side(row, s):
        return row + [s] if explicit else row

    sc = ['dispatch_type'] if explicit else []
    F = {}
    lf_needed = any(v != 1.0 for u in S['units'] for v in u['lf'].values())
    rows = []
    for u in S['units']:
        for s in u['sides']:
            r = [u['unit'], u['region']] + ([s] if explicit else [])
            if lf_needed or not shuffled:
                r.append(u['lf'][s])
            rows.append(r)
    F['unit_info'] = df(rows, ['unit', 'region'] + sc + (['loss_factor'] if (lf_needed or not shuffled) else []))
    nb = max(len(b['vol']) for b in S['bids'])
    bands = [str(i + 1) for i in range(nb)]
    only_energy = all(b['service'] == 'energy' for b in S['bids'])
    svc = [] if (only_energy and shuffled) else ['service']
    pad = lambda v, x: [float(k) for k in v] + [x] * (nb - len(v))
    F['volume_bids'] = df([side([b['unit']] + ([b['service']] if svc else []) + pad(b['vol'], 0.0), b['side'])
                           for b in S['bids']], ['unit'] + svc + bands + sc)
    F['price_bids'] = df([side([b['unit']] + ([b['service']] if svc else []) + pad(b['price'], float(b['price'][-1])),
                               b['side']) for b in S['bids']], ['unit'] + svc + bands + sc)
    if S.get('capacity'):
        F['capacity'] = df([side([q['unit'], float(q['cap'])], q['side']) for q in S['capacity']],
                           ['unit', 'capacity'] + sc)
    if S.get('uigf'):
        F['uigf'] = df([[q['unit'], float(q['cap'])] for q in S['uigf']], ['unit', 'capacity'])
    if S.get('ramp'):
        F['ramp'] = df([side([q['unit'], float(q['init']), float(q['up']), float(q['down'])], q['side'])
                        for q in S['ramp']], ['unit', 'initial_output', 'ramp_up_rate', 'ramp_down_rate'] + sc)
    nan = float('nan')
    f = lambda x: nan if x is None else float(x)
    if S.get('scada'):
        F['scada'] = df([[q['unit'], f(q['up']), f(q['down'])] for q in S['scada']],
                        ['unit', 'scada_ramp_up_rate', 'scada_ramp_down_rate'])
    if S.get('run_type', 'no') != 'no':
        if S['run_type'] == 'first':
            F['ramp_fs'] = df([[q['unit'], int(q['current_mode'])] for q in S['ramp_fs']], ['unit', 'current_mode'])
        else:
            F['ramp_fs'] = df([[q['unit'], int(q['end_mode']), float(q['min_loading']), f(q.get('since'))]
                               for q in S['ramp_fs']],
                              ['unit', 'end_mode', 'min_loading', 'time_since_end_of_mode_two'])
    if S.get('fast_start'):
        F['fast_start'] = df([[q['unit'], int(q['end_mode']), float(q['time']), float(q['m2']), float(q['m4']),
                               float(q['min'])] for q in S['fast_start']],
                             ['unit', 'end_mode', 'time_in_end_mode', 'mode_two_length', 'mode_four_length',
                              'min_loading'])
    if S.get('demand'):
        F['demand'] = df([[r, float(d)] for r, d in S['demand'].items()], ['region', 'demand'])
    if S.get('fcas_req'):
        typed = any((q.get('type') or '=') != '=' for q in S['fcas_req'])
        F['fcas_req'] = df([[q['set'], r, sv, float(q['volume'])] +
                            ([q.get('type') or '='] if typed else []) for q in S['fcas_req'] for r in q['regions']
                            for sv in aslist(q['service'])],
                           ['set', 'region', 'service', 'volume'] + (['type'] if typed else []))
    if S.get('fcas_max'):
        F['fcas_max'] = df([side([q['unit'], q['service'], float(q['max'])], q['side']) for q in S['fcas_max']],
                           ['unit', 'service', 'max_availability'] + sc)
    if S.get('joint_ramp'):
        F['joint_ramp'] = df([[q['unit'], float(q['init']), f(q['up']), f(q['down'])] for q in S['joint_ramp']],
                             ['unit', 'initial_output', 'scada_ramp_up_rate', 'scada_ramp_down_rate'])
    for key in ('contingency', 'regulation'):
        if S.get(key):
            F[key] = df([side([q['unit'], q['service'], float(q['max']), float(q['emin']), float(q['low']),
                               float(q['high']), float(q['emax'])], q['side']) for q in S[key]],
                        ['unit', 'service', 'max_availability', 'enablement_min', 'low_break_point',
                         'high_break_point', 'enablement_max'] + sc)
    if S.get('inter'):
        linked = any(k['name'] != k['link'] for k in S['inter']) or not shuffled
        lfs = any(k['from_lf'] != 1.0 or k['to_lf'] != 1.0 for k in S['inter']) or linked
        gcf = any(k.get('gcf', 1) != 1 for k in S['inter'])
        cols = ['interconnector', 'to_region', 'from_region', 'max', 'min'] + (['link'] if linked else []) + \
               (['from_region_loss_factor', 'to_region_loss_factor'] if lfs else []) + \
               (['generic_constraint_factor'] if gcf else [])
        F['inter'] = df([[k['name'], k['to'], k['from'], float(k['max']), float(k['min'])] +
                         ([k['link']] if linked else []) +
                         ([float(k['from_lf']), float(k['to_lf'])] if lfs else []) +
                         ([int(k.get('gcf', 1))] if gcf else []) for k in S['inter']], cols)
        if S.get('losses'):
            F['loss_functions'] = df([[l['name'], float(l['from_share']), loss_fn(l)] + ([l['link']] if linked else [])
                                      for l in S['losses']],
                                     ['interconnector', 'from_region_loss_share', 'loss_function'] +
                                     (['link'] if linked else []))
            F['break_points'] = df([[l['name'], i + 1, float(p)] + ([l['link']] if linked else [])
                                    for l in S['losses'] for i, p in enumerate(sorted(l['breaks']))],
                                   ['interconnector', 'loss_segment', 'break_point'] + (['link'] if linked else []))
    if S.get('generic'):
        F['generic'] = df([[g['set'], g['type'], float(g['rhs'])] for g in S['generic']], ['set', 'type', 'rhs'])
    if S.get('generic_units'):
        F['generic_units'] = df([[g['set'], g['unit'], g['service'], float(g['coef'])] for g in S['generic_units']],
                                ['set', 'unit', 'service', 'coefficient'])
    if S.get('generic_regions'):
        F['generic_regions'] = df([[g['set'], g['region'], g['service'], float(g['coef'])]
                                   for g in S['generic_regions']], ['set', 'region', 'service', 'coefficient'])
    if S.get('generic_inters'):
        F['generic_inters'] = df([[g['set'], g['inter'], float(g['coef'])] for g in S['generic_inters']],
                                 ['set', 'interconnector', 'coefficient'])
    return F


RUN = {'no': 'no_fast_start_units', 'first': 'fast_start_first_run', 'second': 'fast_start_second_run'}


def vcost(c):
    """Violation cost argument: a number, or a per-set table."""
    import pandas as pd
    if isinstance(c, dict):
        return pd.DataFrame({'set': list(c.keys()), 'cost': [float(v) for v in c.values()]})
    return c


def apply(m, S, F, name):
    """Issue one setter call."""
    if name == 'bids':
        m.set_unit_volume_bids(F['volume_bids'])
        m.set_unit_price_bids(F['price_bids'])
    elif name == 'capacity':
        m.set_unit_bid_capacity_constraints(F['capacity'], S.get('capacity_cost'))
    elif name == 'uigf':
        m.set_unconstrained_intermittent_generation_forecast_constraint(F['uigf'], S.get('uigf_cost'))
    elif name == 'ramp':
        kw = {}
        if S.get('scada'):
            kw['scada_ramp_rates'] = F['scada']
        if S.get('run_type', 'no') != 'no':
            kw['run_type'] = RUN[S['run_type']]
            kw['fast_start_profiles'] = F['ramp_fs']
        m.set_unit_ramp_rate_constraints(F['ramp'], violation_cost=S.get('ramp_cost'), **kw)
    elif name == 'fast_start':
        m.set_fast_start_constraints(F['fast_start'], S.get('fast_start_cost'))
    elif name == 'demand':
        m.set_demand_constraints(F['demand'], S.get('demand_cost'))
    elif name == 'fcas_req':
        m.set_fcas_requirements_constraints(F['fcas_req'], vcost(S.get('fcas_cost')))
    elif name == 'fcas_max':
        m.set_fcas_max_availability(F['fcas_max'], S.get('fcas_max_cost'))
    elif name == 'joint_ramp':
        kw = {}
        if S.get('run_type', 'no') != 'no':
            kw = {'run_type': RUN[S['run_type']], 'fast_start_profiles': F['ramp_fs']}
        m.set_joint_ramping_constraints_reg(F['joint_ramp'], violation_cost=S.get('joint_ramp_cost'), **kw)
    elif name == 'contingency':
        m.set_joint_capacity_constraints(F['contingency'], S.get('contingency_cost'))
    elif name == 'regulation':
        m.set_energy_and_regulation_capacity_constraints(F['regulation'], S.get('regulation_cost'))
    elif name == 'inter':
        m.set_interconnectors(F['inter'])
        if S.get('losses'):
            m.set_interconnector_losses(F['loss_functions'], F['break_points'])
    elif name == 'generic':
        m.set_generic_constraints(F['generic'], vcost(S.get('generic_cost')))
    elif name == 'generic_units':
        m.link_units_to_generic_constraints(F['generic_units'])
    elif name == 'generic_regions':
        m.link_regions_to_generic_constraints(F['generic_regions'])
    elif name == 'generic_inters':
        m.link_interconnectors_to_generic_constraints(F['generic_inters'])
    elif name == 'tie_break':
        m.set_tie_break_constraints(S['tie_break'])
    else:
        raise HarnessError(name)


STEPS = ['bids', 'capacity', 'uigf', 'ramp', 'fast_start', 'demand', 'fcas_req', 'fcas_max', 'joint_ramp',
         'contingency', 'regulation', 'inter', 'generic', 'generic_units', 'generic_regions', 'generic_inters',
         'tie_break']


def steps(S):
    out = ['bids'] + [k for k in STEPS[1:] if S.get(k) is not None and (k == 'tie_break' or S.get(k))]
    if S.get('perm', 0):
        rnd = random.Random(S['perm'] + 1)
        rest = out[1:]
        rnd.shuffle(rest)
        out = ['bids'] + rest
        if 'inter' in rest and rnd.random() < 0.3:
            out.remove('inter')
            out.insert(0, 'inter')
    return out


EDITABLE = ['bids', 'capacity', 'uigf', 'ramp', 'fast_start', 'demand', 'fcas_req', 'fcas_max', 'joint_ramp',
            'contingency', 'regulation', 'inter', 'generic', 'generic_units', 'generic_regions', 'generic_inters']
COST = {'capacity': 'capacity_cost', 'uigf': 'uigf_cost', 'ramp': 'ramp_cost', 'fast_start': 'fast_start_cost',
        'demand': 'demand_cost', 'fcas_req': 'fcas_cost', 'fcas_max': 'fcas_max_cost',
        'joint_ramp': 'joint_ramp_cost', 'contingency': 'contingency_cost', 'regulation': 'regulation_cost',
        'generic': 'generic_cost'}
NUMS = {'capacity': ['cap'], 'uigf': ['cap'], 'ramp': ['up', 'down'], 'fast_start': ['min'], 'fcas_req': ['volume'],
        'fcas_max': ['max'], 'joint_ramp': ['up', 'down'], 'contingency': ['max'], 'regulation': ['max'],
        'generic': ['rhs'], 'generic_units': ['coef'], 'generic_regions': ['coef'], 'generic_inters': ['coef']}


def edit(S, key, factor, drop, cost):
    """-> new scenario; (numbers scaled, possibly one row fewer, violation cost changed)"""
    S = copy.deepcopy(S)
    if key == 'bids':
        for i, b in enumerate(S['bids']):
            f = factor or 1.25
            b['vol'] = [round(v * f, 3) for v in b['vol']]
            b['price'] = [p + 3 * (i + 1) for p in b['price']]
            if drop == 1 and len(b['vol']) > 1 and i == 0:
                b['vol'], b['price'] = b['vol'][:-1], b['price'][:-1]
        if drop == 2 and len(S['bids'][0]['vol']) < 10:
            b = S['bids'][0]
            b['vol'].append(20.0)
            b['price'].append(b['price'][-1] + 10)
        if not any(v >= MIN_BID for v in S['bids'][0]['vol']):
            S['bids'][0]['vol'][0] = 20.0
        return S
    if key == 'demand':
        S['demand'] = {r: round(d * (factor if factor else 0.3), 3) for r, d in S['demand'].items()}
    elif key == 'inter':
        f = factor or 0.75
        for k in S['inter']:
            k['max'] *= f
            k['min'] *= f
        for l in S.get('losses') or []:
            l['breaks'] = [p * f for p in l['breaks']]
            l['quad'] *= 0.5
        gone = S['inter'][-1]['name']
        lossy = [l for l in S.get('losses') or [] if l['name'] != gone]
        if drop == 1 and len({k['name'] for k in S['inter']}) > 1 and (lossy or not S.get('losses')):
            S['inter'] = [k for k in S['inter'] if k['name'] != gone]
            if lossy:
                S['losses'] = lossy
    else:
        rows = S[key]
        for q in rows:
            for n in NUMS[key]:
                if q.get(n) is not None:
                    q[n] = round(q[n] * factor, 4)
                    if key in ('contingency', 'regulation'):
                        q[n] = max(q[n], 1.0)
        # dropping a row: only where the remaining tables still make sense
        if drop == 1 and len(rows) > 1 and key in ('capacity', 'uigf', 'fcas_max', 'contingency', 'regulation',
                                                   'joint_ramp', 'fast_start', 'generic_units', 'generic_regions'):
            rows.pop()
        if drop == 1 and key == 'ramp':
            u = rows[-1]['unit']
            keep = [q for q in rows if q['unit'] != u]
            if keep:
                S['ramp'] = keep
        if drop == 1 and key == 'fcas_req' and len(rows) > 1:
            gone = rows.pop()['set']
            for k in ('generic_units', 'generic_regions', 'generic_inters'):
                pass
            if isinstance(S.get('fcas_cost'), dict):
                S['fcas_cost'].pop(gone, None)
                S['fcas_cost'] = S['fcas_cost'] or {'NOT IN MARKET': 5000.0}
        if drop == 1 and key == 'generic' and len(rows) > 1:
            gone = rows.pop()['set']
            if isinstance(S.get('generic_cost'), dict):
                S['generic_cost'].pop(gone, None)
                S['generic_cost'] = S['generic_cost'] or {'NOT IN MARKET': 5000.0}
    c = COST.get(key)
    if c and cost == 'soft' and S.get(c) is None:
        S[c] = 12000.0
    elif c and cost == 'hard':
        S.pop(c, None)
    return S


def past(S):
    """An earlier state of the market, to be replaced by S: every table may differ and some may not exist yet."""
    rnd = random.Random(1000 + S['past'])
    P = copy.deepcopy(S)
    for key in EDITABLE:
        if key != 'bids' and not P.get(key):
            continue
        if key not in ('bids', 'demand', 'inter') and rnd.random() < 0.15:
            P.pop(key)
            continue
        if rnd.random() < 0.7:
            P = edit(P, key, rnd.choice([0.5, 1.5, 0.9, 1.1, 0.0]), rnd.randrange(4),
                     rnd.choice(['keep', 'keep', 'soft', 'hard']))
    for l in P.get('losses') or []:
        l['from_share'] = 1.0 - l['from_share']
    return P


def build(S, F=None):
    from nempy import markets
    F = F or frames(S)
    m = markets.SpotMarket(market_regions=list(S['regions']), unit_info=F['unit_info'],
                           dispatch_interval=S.get('interval', 5))
    if S.get('past'):
        P = past(S)
        G = frames(P)
        for name in steps(P):
            apply(m, P, G, name)
        if S['past'] % 3:
            dispatch(m)
    for name in steps(S):
        apply(m, S, F, name)
    return m


def dispatch(m, **kw):
    """-> True if solved, False if nempy reports infeasibility."""
    try:
        m.dispatch(**kw)
        return True
    except ValueError as e:
        if 'infeasible' in str(e):
            return False
        raise


class Out:
    """Observable results of a dispatched market."""

    def __init__(self, S, m):
        self.S, self.m = S, m
        d = m.get_unit_dispatch()
        self.disp = {}
        for u, s, v, x in zip(d['unit'], d['dispatch_type'], d['service'], d['dispatch']):
            check((u, s, v) not in self.disp, 'get_unit_dispatch has two rows for %s %s %s', u, s, v)
            self.disp[(u, s, v)] = float(x)
        self.flow, self.loss = {}, {}
        if S.get('inter'):
            fl = m.get_interconnector_flows()
            for r in fl.to_dict('records'):
                k = (r['interconnector'], r['link'])
                check(k not in self.flow, 'get_interconnector_flows has two rows for %s', k)
                self.flow[k] = float(r['flow'])
                if S.get('losses') and r['losses'] == r['losses']:
                    self.loss[k] = float(r['losses'])
        self.objective = m.objective_value

    def energy(self, u, side=None):
        if side is None:
            return self.disp.get((u, 'generator', 'energy'), 0.0) - self.disp.get((u, 'load', 'energy'), 0.0)
        return self.disp.get((u, side, 'energy'), 0.0)

    def prices(self):
        p = self.m.get_energy_prices()
        return {r: float(x) for r, x in zip(p['region'], p['price'])}

    def fcas_prices(self):
        p = self.m.get_fcas_prices()
        out = {}
        for r, s, x in zip(p['region'], p['service'], p['price']):
            check((r, s) not in out, 'get_fcas_prices has two rows for %s %s', r, s)
            out[(r, s)] = float(x)
        return out


def obj_tol(v):
    return 2e-3 + 2e-7 * abs(v)


def scale_of(ref):
    """Magnitude used for the tolerance on objectives: total absolute cost in play."""
    return max([abs(c) for c in ref.lp.c] + [1.0])


def pin(ref, out, eps=2e-5):
    """Reference model with nempy's reported dispatch, flows and losses pinned (within solver tolerance)."""
    lp = ref.lp.copy()
    terms = ref.dispatch_terms()
    for key, t in terms.items():
        check(key in out.disp, 'no dispatch reported for %s', key)
        lp.rows.append([dict(t), out.disp[key] - eps, out.disp[key] + eps, 'pin'])
    for key, v in out.disp.items():
        if key not in terms:
            check(abs(v) < 1e-6, 'dispatch %s reported for %s which has no bid', v, key)
    for k in ref.S.get('inter') or []:
        key = (k['name'], k['link'])
        check(key in out.flow, 'no flow reported for %s', key)
        lp.rows.append([{'flow|%s|%s' % key: 1.0}, out.flow[key] - eps, out.flow[key] + eps, 'pin'])
        if 'loss|%s|%s' % key in lp.names:
            check(key in out.loss, 'no losses reported for %s', key)
            lp.rows.append([{'loss|%s|%s' % key: 1.0}, out.loss[key] - eps, out.loss[key] + eps, 'pin'])
    return lp


def agree(S, m=None, ref=None, dispatch_kw=None):
    """The universal dispatch oracle.

    nempy is infeasible iff the reference is; nempy's reported objective is the reference optimum; and the reported
    dispatch/flows/losses satisfy every constraint of the reference at exactly the reported cost.
    Returns (ref, out|None, optimum|None).
    """
    ref = ref or Ref(S)
    sol = ref.solve()
    if m is None:
        m = build(S)
    ok = dispatch(m, **(dispatch_kw or {}))
    if sol is None:
        # Distinguish "infeasible" from "infeasible by less than solver tolerance".
        if ok:
            slackened = ref.lp.copy()
            for r in slackened.rows:
                r[1] -= 1e-6 * max(1.0, abs(r[1])) if np.isfinite(r[1]) else 0.0
                r[2] += 1e-6 * max(1.0, abs(r[2])) if np.isfinite(r[2]) else 0.0
            check(slackened.solve() is not None,
                  'nempy reports a dispatch although no dispatch satisfies the stated limits')
        return ref, None, None
    if not ok:
        # tolerate only numerically marginal feasibility
        tight = ref.lp.copy()
        for r in tight.rows:
            if np.isfinite(r[1]) and np.isfinite(r[2]) and r[1] == r[2]:
                continue
            r[1] += 1e-5
            r[2] -= 1e-5
        check(tight.solve() is None, 'nempy reports infeasibility although a dispatch satisfying every limit exists')
        return ref, None, None
    out = Out(S, m)
    v = sol[0]
    tol = obj_tol(v) + 1e-6 * scale_of(ref)
    check(out.objective is not None and abs(out.objective - v) <= tol,
          'objective %r differs from the least cost %r of the stated market', out.objective, v)
    pinned = pin(ref, out)
    ps = pinned.solve()
    if ps is None:
        pinned = pin(ref, out, 2e-4)
        ps = pinned.solve()
    if ps is None:
        raise Violation('reported dispatch breaks a stated limit: ' + blame(ref, pinned))
    n = len(ref.lp.rows)
    check(abs(ps[0] - v) <= tol + 2e-4 * slope(ref), 'reported dispatch costs %r, reported objective is %r', ps[0], v)
    ref.pinned_values = ps[1]
    return ref, out, v


def slope(ref):
    """Cost change that pinning tolerance can cause: sum of |cost| over the few largest columns."""
    cs = sorted((abs(c) for c in ref.lp.c), reverse=True)
    return sum(cs[:6])


def blame(ref, pinned):
    """Name the constraint groups that make the pinned model infeasible."""
    groups = []
    n = len(ref.lp.rows)
    tags = []
    for r in pinned.rows[:n]:
        g = r[3][0] if isinstance(r[3], tuple) else r[3]
        if g not in tags:
            tags.append(g)
    for g in tags:
        p = pinned.copy()
        p.rows = [r for r in p.rows if (r[3][0] if isinstance(r[3], tuple) else r[3]) != g]
        if p.solve() is not None:
            groups.append(str(g))
    return ','.join(groups) or 'several constraint groups together'


# --------------------------------------------------------------------------------------------------------------
# Further oracles

GROUPS = ['demand', 'fcas', 'generic', 'unit_bid_capacity', 'uigf_capacity', 'ramp_up', 'ramp_down',
          'bidirectional_ramp_up', 'bidirectional_ramp_down', 'fast_start', 'fcas_max_availability',
          'joint_ramping_raise_reg', 'joint_ramping_lower_reg', 'joint_ramping_raise_reg_bdu',
          'joint_ramping_lower_reg_bdu', 'joint_capacity', 'energy_and_regulation_capacity']


def row_value(ref, k, values):
    """Left hand side of reference row k without its slack variables."""
    return sum(c * values[n] for n, c in ref.lp.rows[k][0].items() if not n.startswith(('over_', 'under_')))


def degree(ref, k, values):
    """Signed amount by which the values break row k: >0 above its upper limit, <0 below its lower one."""
    x = row_value(ref, k, values)
    lo, hi = ref.lp.rows[k][1], ref.lp.rows[k][2]
    if x > hi:
        return x - hi
    if x < lo:
        return x - lo
    return 0.0


def violation_totals(ref, values):
    """{group: total violation} at the given dispatch."""
    out = {}
    for g, rows in ref.sets.items():
        out[g] = sum(abs(degree(ref, k, values)) for k, typ, label, cost in rows)
    return out


def exact_row(ref, out, k):
    """Left hand side of row k (in terms of whole-unit dispatch and flows) at the reported results."""
    key_of = {}
    for b, cols in ref.bid_cols:
        for c in cols:
            key_of[c] = (b['unit'], b['side'], b['service'])
    seen, x = {}, 0.0
    for n, c in ref.lp.rows[k][0].items():
        if n.startswith(('over_', 'under_')):
            continue
        if n in key_of:
            key = key_of[n]
            if key in seen:
                if abs(seen[key] - c) > 1e-12:
                    raise HarnessError('row %d is not uniform over the bands of %s' % (k, key))
                continue
            seen[key] = c
            x += c * out.disp[key]
        elif n.startswith('flow|'):
            x += c * out.flow[tuple(n.split('|')[1:])]
        elif n.startswith('loss|'):
            x += c * out.loss[tuple(n.split('|')[1:])]
        else:
            raise HarnessError('unexpected column ' + n)
    return x


def local_model(ref, out, wide, shift=None):
    """The market linearised around the reported flows.

    wide: keep the loss break points next to the closest one, and every link but those whose opposite carries flow;
    otherwise only the segment(s) that contain the flow and only the links in use.  (Any correct linearisation lies
    between the two.)
    shift: {row: amount} added to the limit of a row.
    """
    lp = ref.lp.copy()
    lp.integ = [0] * len(lp.integ)
    for k, by in (shift or {}).items():
        if lp.rows[k][1] == lp.rows[k][2]:
            lp.rows[k][1] += by
            lp.rows[k][2] += by
        elif by > 0:
            lp.rows[k][2] += by
        else:
            lp.rows[k][1] += by
    free = lambda n: (lp.lb.__setitem__(lp.names[n], 0.0), lp.ub.__setitem__(lp.names[n], 1e9))
    for n in lp.names:
        if n.startswith(('z|', 'y|')):
            free(n)
    lp.rows = [r for r in lp.rows if r[3] not in ('seg', 'sos2', 'sos1')] if not shift else lp.rows
    if shift:
        for r in lp.rows:
            if r[3] in ('seg', 'sos2', 'sos1'):
                r[1], r[2] = -np.inf, np.inf
    busy = {k['name'] for k in ref.S.get('inter') or [] if abs(out.flow[(k['name'], k['link'])]) > 1e-3}
    for k in ref.S.get('inter') or []:
        key = (k['name'], k['link'])
        flow = out.flow[key]
        if k['name'] != k['link'] and abs(flow) < 1e-9 and (not wide or k['name'] in busy):
            i = lp.names['flow|%s|%s' % key]
            lp.lb[i] = lp.ub[i] = 0.0
    for l in ref.S.get('losses') or []:
        key = (l['name'], l['link'])
        if 'loss|%s|%s' % key not in lp.names:
            continue
        flow = out.flow[key]
        pts = sorted(l['breaks'])
        near = min(range(len(pts)), key=lambda i: abs(pts[i] - flow))
        if wide or abs(pts[near] - flow) < 1e-6:
            keep = {near - 1, near, near + 1}
        else:
            j = max(i for i in range(len(pts)) if pts[i] < flow)
            keep = {j, j + 1}
        for i in range(len(pts)):
            if i not in keep:
                lp.ub[lp.names['w|%s|%s|%d' % (key + (i,))]] = 0.0
    return lp


def trader(ref, out, prices, fcas_prices, shift=None, width=20.0):
    """Are the prices marginal costs?  A trader who may buy or sell up to `width` MW of energy in any region and of any
    FCAS in any region, at the reported prices, must not be able to lower the total cost of the market.

    -> (cost without trader, cost with trader), or None when the market is not convex around the dispatch (then the
    marginal cost is not defined by the linearised market alone).
    """
    lp = local_model(ref, out, False, shift)
    base, big = lp.solve(), local_model(ref, out, True, shift).solve()
    if base is None or big is None:
        return None
    if abs(base[0] - big[0]) > 1e-5 + 1e-8 * abs(base[0]):
        return None
    rows = {}
    for k, r in ref.market_rows.items():
        rows[k] = next(x for x in lp.rows if x[3] == ref.lp.rows[r][3])
    for r, p in prices.items():
        n = lp.var('trade|%s' % r, -width, width, p)
        rows[('energy', r)][0][n] = 1.0
    for (r, s), p in (fcas_prices or {}).items():
        n = lp.var('trade|%s|%s' % (r, s), -width, width, p)
        for q in ref.S['fcas_req']:
            if s in aslist(q['service']) and r in q['regions']:
                rows[('fcas', q['set'])][0][n] = 1.0
    got = lp.solve()
    if got is None:
        raise HarnessError('trader model infeasible')
    return base[0], got[0]
