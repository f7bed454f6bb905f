"""Hypothesis strategies for dispatch scenarios (format: refmarket.py).

`scenario(**feat)` draws a scenario; every feature has a probability (0..1), so each check focuses the search on the
part of the market its property is about while still mixing in the rest.  All choices are hypothesis draws, so a
failing scenario shrinks towards few units, few bands, no optional features and small round numbers.
"""
from hypothesis import strategies as st

RAISE = ['raise_6s', 'raise_60s', 'raise_5min', 'raise_1s']
LOWER = ['lower_6s', 'lower_60s', 'lower_5min', 'lower_1s']
CONT = RAISE + LOWER
REG = ['raise_reg', 'lower_reg']
ELASTIC = [5000.0, 20000.0, 100000.0]
NAMES = ['A', 'B', 'AB', 'BA', 'a b', 'U1', 'U10', 'U1-x', 'C', 'D'] + ['Z%d' % i for i in range(9, 20)]

DEFAULT = dict(
    units=(1, 4), bands=(1, 3), regions=(1, 2), load=0.15, bdu=0.15, lf=0.4, demand=1.0, demand_cost=0.4, tight=0.1,
    neg_price=0.2, inter=0.6, losses=0.5, links=0.15, asym=0.5, inter_lf=0.3, narrow=0.3, even=0.5,
    capacity=0.2, uigf=0.1, ramp=0.2, scada=0.5, fs_run=0.3, fast_start=0.15, soft=0.4,
    fcas=0.3, fcas_max=0.3, joint_ramp=0.3, cont_trap=0.4, reg_trap=0.4, reg=0.6,
    generic=0.2, tie_break=0.0, same_price=0.1, large=0.06, perm=0.5, past=0.15, intervals=(5, 30, 60, 15), fcas_infeasible=0.1,
    frac=0.35, many_bands=0.06, steep=0.08, fcas_only=0.12, loop=0.25, one_way=0.12, empty=0.1, big=0.025)


class D:
    def __init__(self, draw):
        self.draw = draw
        self.frac = False       # quantities with decimals

    def x(self, a, b):
        """A quantity between a and b."""
        v = float(self.i(a, b))
        if self.frac:
            v = min(v + self.pick([0.0, 0.5, 0.25, 0.37, 0.125, 0.9]), float(b))
        return v

    def p(self, prob):
        if prob <= 0:
            return False
        if prob >= 1:
            return True
        return self.draw(st.integers(0, 99)) >= round(100 * (1 - prob))

    def i(self, a, b):
        return self.draw(st.integers(int(a), int(b))) if b > a else int(a)

    def pick(self, xs):
        xs = list(xs)
        return self.draw(st.sampled_from(xs)) if len(xs) > 1 else xs[0]

    def elastic(self):
        if self.p(0.06):                        # cheaper to break than many bids
            return self.pick([45.0, 151.0])
        return self.pick(ELASTIC)

    def cost_table(self, rows):
        """Violation costs by set; sets left out stay firm, and a table may list sets the market does not have."""
        c = {q['set']: self.elastic() for q in rows}
        if len(c) > 1 and self.p(0.25):
            del c[self.pick(sorted(c))]
        if self.p(0.15):
            c['NOT IN MARKET'] = self.elastic()
        return c

    def subset(self, xs, least=1):
        xs = list(xs)
        out = [x for x in xs if self.p(0.5)]
        while len(out) < min(least, len(xs)):
            x = self.pick([y for y in xs if y not in out])
            out.append(x)
        return [x for x in xs if x in out]


def bands(d, f, scale):
    n = d.i(8, 10) if d.p(f['many_bands']) else d.i(*f['bands'])
    vol = [d.pick([0, 1, 2, 3, 4, 5, 7, 10]) * scale for _ in range(n)]
    if d.frac:
        vol = [v + d.pick([0.0, 0.5, 0.25, 0.37, 1.125, 0.9]) if v else 0 for v in vol]
    if not any(vol):
        vol[d.i(0, n - 1)] = scale * 5
    if n > 1 and d.p(0.04):                     # a sliver of a band
        vol[d.i(0, n - 1)] = d.pick([0.002, 0.01, 0.04])
    return [float(v) for v in vol]


def prices(d, f, n, anchor=None):
    lo = -50 if d.p(f['neg_price']) else 1
    p = []
    steep = [300, 2000, 10000] if d.p(f['steep']) else []
    cur = d.i(lo, 60) if anchor is None else anchor
    for _ in range(n):
        p.append(float(cur))
        cur += d.pick([1, 0, 5, 20, 100] + steep)
        if d.frac:
            cur += d.pick([0.0, 0.01, 0.5, 0.33])
    return p


@st.composite
def scenario(draw, **over):
    f = dict(DEFAULT)
    f.update(over)
    d = D(draw)
    if d.p(f['big']):                           # now and then a market with many units, bands and regions
        f.update(units=(8, 16), regions=(max(1, f['regions'][0]), 5 if f['regions'][1] > 1 else 1), many_bands=0.3)
    nr = d.i(*f['regions'])
    regions = ['NSW', 'VIC', 'QLD', 'SA', 'TAS'][:nr]
    S = {'regions': regions, 'interval': d.pick(f['intervals']), 'units': [], 'bids': []}
    nu = max(d.i(*f['units']), 1)
    d.frac = d.p(f['frac'])
    names = list(NAMES)
    services = []
    fcas_on = d.p(f['fcas'])
    if fcas_on:
        if d.p(f['reg']):
            services += d.subset(REG)
        if not services or d.p(0.6):
            services += d.subset(CONT[:4] if d.p(0.5) else CONT, 1)[:2]
    tie_anchor = d.i(5, 40)
    scale = 90 if d.p(f['large']) else 10
    for k in range(nu):
        name = names.pop(d.i(0, min(len(names) - 1, 4)))
        r = d.i(0, 99)
        region = d.pick(regions)
        pb, pl = int(100 * f['bdu']), int(100 * f['load'])
        kind = ['generator']
        if k > 0 or pb + pl > 99:
            if r >= 100 - pb:
                kind = ['generator', 'load']
            elif r >= 100 - pb - pl:
                kind = ['load']
        lf = {}
        for s in kind:
            lf[s] = d.pick([0.95, 0.9, 1.05, 1.1, 0.875]) if d.p(f['lf']) else 1.0
        S['units'].append({'unit': name, 'region': region, 'sides': kind, 'lf': lf})
        # some units only offer frequency control
        no_energy = k > 0 and len(kind) == 1 and services and d.p(f['fcas_only'])
        for s in kind:
            if no_energy:
                for n, sv in enumerate(services):
                    if n == 0 or d.p(0.6):
                        v = bands(d, dict(f, bands=(1, 2), many_bands=0), 2)
                        S['bids'].append({'unit': name, 'side': s, 'service': sv, 'vol': v,
                                          'price': [abs(x) for x in prices(d, f, len(v))]})
                continue
            vol = bands(d, f, scale)
            anchor = tie_anchor if d.p(f['same_price']) else None
            pr = prices(d, f, len(vol), anchor)
            if 'load' in kind and len(kind) == 2:
                # bidirectional: consumption is worth less than generation costs (otherwise both would run at once)
                pr = [p - 30 if s == 'load' else p for p in pr]
            S['bids'].append({'unit': name, 'side': s, 'service': 'energy', 'vol': vol, 'price': pr})
            for sv in services:
                if sv in CONT and s == 'load' and len(kind) == 2:
                    continue     # contingency offers of bidirectional units carry the generator tag
                if d.p(0.75):
                    v = bands(d, dict(f, bands=(1, 2), many_bands=0), 2)
                    S['bids'].append({'unit': name, 'side': s, 'service': sv, 'vol': v,
                                      'price': [abs(x) for x in prices(d, f, len(v))]})
    perm = d.i(1, 999) if d.p(f['perm']) else 0
    S['perm'] = perm
    if d.p(f['past']):
        S['past'] = d.i(1, 999)
    esum = {}
    for b in S['bids']:
        esum.setdefault((b['unit'], b['side'], b['service']), sum(b['vol']))
    reg_of = {u['unit']: u['region'] for u in S['units']}
    # interconnectors
    if nr > 1 and d.p(f['inter']):
        interconnectors(d, f, S)
    # demand
    if d.p(f['demand']):
        S['demand'] = {}
        for r in regions:
            gen = sum(v for (u, s, sv), v in esum.items() if reg_of[u] == r and sv == 'energy' and s == 'generator')
            frac = d.i(100, 120) if d.p(f['tight']) else d.i(0, 95)
            has = any(reg_of[u] == r and sv == 'energy' for (u, s, sv) in esum) or \
                any(r in (k['from'], k['to']) for k in S.get('inter') or [])
            if not has and not d.p(f['empty']):
                continue
            if gen == 0:
                S['demand'][r] = float(d.pick([0, 5, 20]))
            else:
                S['demand'][r] = round(gen * frac / 100.0, 2)
                if frac == 100 and d.p(0.4):    # short by very little
                    S['demand'][r] = round(gen + d.pick([0.004, 0.02]), 3)
        if not S['demand']:
            del S['demand']
        elif d.p(f['demand_cost']):
            S['demand_cost'] = d.elastic()

    def soft(key, group_p=None):
        if d.p(f['soft'] if group_p is None else group_p):
            S[key] = d.elastic()

    energy_sides = [(u['unit'], s) for u in S['units'] for s in u['sides'] if (u['unit'], s, 'energy') in esum]
    if d.p(f['capacity']):
        S['capacity'] = [{'unit': u, 'side': s, 'cap': d.x(0, int(esum[(u, s, 'energy')] * 1.1))}
                         for u, s in energy_sides if d.p(0.7)]
        if S['capacity']:
            soft('capacity_cost')
        else:
            del S['capacity']
    if d.p(f['uigf']):
        us = [u for u, s in energy_sides if s == 'generator' and d.p(0.6)]
        if us:
            S['uigf'] = [{'unit': u, 'cap': d.x(0, int(esum[(u, 'generator', 'energy')] * 1.1))} for u in us]
            soft('uigf_cost')
    if d.p(f['ramp']):
        ramping(d, f, S, esum)
        if S.get('ramp'):
            soft('ramp_cost')
    if d.p(f['fast_start']):
        fs = []
        for u in S['units']:
            if len(u['sides']) == 1 and (u['unit'], u['sides'][0], 'energy') in esum and d.p(0.7):
                cap = int(esum[(u['unit'], u['sides'][0], 'energy')])
                m2, m4 = d.i(1, 10), d.i(1, 10)
                mode = d.i(0, 4)
                t = d.i(0, {2: m2, 4: m4}.get(mode, 30))
                fs.append({'unit': u['unit'], 'end_mode': mode, 'time': float(t), 'm2': float(m2), 'm4': float(m4),
                           'min': d.x(0, max(1, cap))})
        if fs and any(q['end_mode'] < 5 for q in fs):
            S['fast_start'] = fs
            soft('fast_start_cost')
    if fcas_on:
        fcas(d, f, S, services, esum, soft)
    if d.p(f['generic']):
        generic(d, f, S, services, esum)
    if d.p(f['tie_break']):
        S['tie_break'] = 1e-3
    return S


def interconnectors(d, f, S):
    regions = S['regions']
    S['inter'] = []
    S['losses'] = []
    pairs = [(regions[i], regions[i + 1]) for i in range(len(regions) - 1)]
    if d.p(f['loop']):
        pairs.append(pairs[0] if len(regions) == 2 or d.p(0.5) else (regions[0], regions[-1]))
    n = 0
    own = not d.p(0.3)                          # else the links of different interconnectors share their names
    for a, b in pairs:
        n += 1
        if d.p(0.5):
            a, b = b, a
        name = 'I%d' % n
        lim = (5, 30) if d.p(f['narrow']) else (40, 200)
        if d.p(f['links']):
            # a market interconnector: two one-directional links, only one of which may carry flow
            mx = d.x(*lim)
            loss = d.p(f['losses'])
            tag = name if own else 'way '
            for link, fr, to in (('A', a, b), ('B', b, a)):
                mx = d.x(*lim) if d.p(0.25) else mx
                S['inter'].append({'name': name, 'link': tag + link, 'from': fr, 'to': to, 'min': 0.0, 'max': mx,
                                   'from_lf': d.pick([0.9, 0.95, 1.0]) if d.p(f['inter_lf']) else 1.0,
                                   'to_lf': d.pick([0.9, 0.95, 1.0]) if d.p(f['inter_lf']) else 1.0,
                                   'gcf': 1 if link == 'A' else -1})
                if loss:
                    S['losses'].append({'name': name, 'link': tag + link, 'from_share': d.i(0, 10) / 10.0,
                                        'lin': d.i(0, 5) / 100.0, 'quad': d.i(0, 10) * 1e-4, 'asym': 0.0,
                                        'breaks': breaks(d, f, 0.0, mx)})
            continue
        mx, mn = d.x(*lim), -d.x(*lim)
        if d.p(f['one_way']):                   # flow limited to one direction, possibly forced
            mn = round(mx * d.pick([0, 0, 0.25, 0.1]), 2)
            if d.p(0.5):
                mx, mn = -mn, -mx
        S['inter'].append({'name': name, 'link': name, 'from': a, 'to': b, 'min': mn, 'max': mx,
                           'from_lf': d.pick([0.9, 0.97]) if d.p(f['inter_lf'] * 0.3) else 1.0,
                           'to_lf': d.pick([0.9, 1.02]) if d.p(f['inter_lf'] * 0.3) else 1.0,
                           'gcf': -1 if d.p(f['inter_lf'] * 0.1) else 1})
        if d.p(f['losses']):
            S['losses'].append({'name': name, 'link': name, 'from_share': d.i(0, 10) / 10.0,
                                'lin': d.i(0, 5) / 100.0, 'quad': d.i(0, 10) * 1e-4,
                                'asym': d.i(-3, 3) / 100.0 if d.p(f['asym']) else 0.0,
                                'breaks': breaks(d, f, mn, mx)})
    if not S['losses']:
        del S['losses']


def breaks(d, f, lo, hi):
    n = d.i(2, 6)
    if d.p(0.15):                               # a loss model that extends beyond the limits
        lo, hi = lo - d.i(0, 50), hi + d.i(0, 50)
    if d.p(f['even']):
        pts = [lo + (hi - lo) * i / (n - 1) for i in range(n)]
    else:
        pts = sorted({lo, hi} | {max(lo, min(d.x(lo, hi), hi)) for _ in range(n - 2)})
    if lo < 0 < hi and d.p(0.5) and 0.0 not in pts:
        pts = sorted(pts + [0.0])
    return sorted({round(p, 3) for p in pts})


def ramping(d, f, S, esum):
    S['ramp'] = []
    scada = d.p(f['scada'])
    S['scada'] = []
    rate = lambda: float(d.pick([12, 0, 60, 120, 240, 600, 1200]))
    for u in S['units']:
        if not d.p(0.75) or (u['unit'], u['sides'][0], 'energy') not in esum:
            continue
        n = u['unit']
        if len(u['sides']) == 2:
            g, l = esum[(n, 'generator', 'energy')], esum[(n, 'load', 'energy')]
            init = d.x(-l, g)
        else:
            init = d.x(0, esum[(n, u['sides'][0], 'energy')])
        if d.p(0.06):       # telemetry is not bound by the offers
            init = d.pick([-init / 4, init + 5.0, -0.5])
        for s in u['sides']:
            S['ramp'].append({'unit': n, 'side': s, 'init': init, 'up': rate(), 'down': rate()})
        if scada and d.p(0.7):
            S['scada'].append({'unit': n, 'up': rate() if d.p(0.8) else None, 'down': rate() if d.p(0.8) else None})
    if not S['scada']:
        del S['scada']
    if not S['ramp']:
        del S['ramp']
        S.pop('scada', None)
        return
    if d.p(f['fs_run']):
        fs_profiles(d, S, esum)


def fs_profiles(d, S, esum):
    run = d.pick(['first', 'second'])
    fs = []
    for u in S['units']:
        if len(u['sides']) == 1 and (u['unit'], u['sides'][0], 'energy') in esum and d.p(0.7):
            cap = int(esum[(u['unit'], u['sides'][0], 'energy')])
            cm = d.i(0, 4)
            em = d.i(max(cm, 0), 4)
            since = None
            if em in (3, 4) and d.p(0.5):
                since = float(d.i(0, S['interval']))
            fs.append({'unit': u['unit'], 'current_mode': cm, 'end_mode': em, 'min_loading': d.x(0, max(1, cap // 2)),
                       'since': since})
    if fs:
        S['run_type'] = run
        S['ramp_fs'] = fs


def fcas(d, f, S, services, esum, soft):
    reg_of = {u['unit']: u['region'] for u in S['units']}
    S['fcas_req'] = []
    n = 0
    for sv in services:
        tot_all = 0
        for k in range(d.i(1, 2)):
            rs = d.subset(S['regions'])
            svs = [sv]
            if d.p(0.15) and len(services) > 1:
                svs = d.subset(services, 1)
            tot = sum(v for (u, s, x), v in esum.items() if x in svs and reg_of[u] in rs)
            if tot == 0 and not d.p(f['empty']):
                continue
            n += 1
            frac = 120 if d.p(f['fcas_infeasible']) else d.i(0, 60)
            S['fcas_req'].append({'set': 'F%d' % n, 'service': svs if len(svs) > 1 else svs[0], 'regions': rs,
                                  'volume': round(tot * frac / 100.0, 1) if tot else d.pick([0.0, 1.0]),
                                  'type': d.pick(['=', '>=', '>=', '>=', '<='])})
            if frac == 120 and tot and d.p(0.2):    # short by very little
                S['fcas_req'][-1]['volume'] = round(tot + d.pick([0.004, 0.02]), 3)
    if not S['fcas_req']:
        del S['fcas_req']
    else:
        if d.p(0.3):
            for q in S['fcas_req']:
                q['type'] = '='
        if d.p(0.5):
            S['fcas_cost'] = d.elastic() if d.p(0.5) else d.cost_table(S['fcas_req'])
    have = sorted(k for k in esum if k[2] != 'energy')
    if d.p(f['fcas_max']) and have:
        S['fcas_max'] = [{'unit': u, 'side': s, 'service': sv, 'max': d.x(0, int(esum[(u, s, sv)]))}
                         for u, s, sv in have if d.p(0.7)]
        if S['fcas_max']:
            soft('fcas_max_cost')
        else:
            del S['fcas_max']
    kinds = {u['unit']: u['sides'] for u in S['units']}
    regs = sorted({u for u, s, sv in have if sv in REG})
    if d.p(f['joint_ramp']) and regs:
        rate = lambda: float(d.pick([12, 60, 120, 240, 600]))
        S['joint_ramp'] = []
        for u in regs:
            if not d.p(0.8):
                continue
            if len(kinds[u]) == 2:
                init = d.x(-esum[(u, 'load', 'energy')], esum[(u, 'generator', 'energy')])
                row = {'unit': u, 'init': float(init), 'up': rate() if d.p(0.85) else None,
                       'down': rate() if d.p(0.85) else None}
            else:
                init = d.x(0, esum.get((u, kinds[u][0], 'energy'), 0))
                row = {'unit': u, 'init': float(init), 'up': rate() if d.p(0.85) else None,
                       'down': rate() if d.p(0.85) else None}
            for q in S.get('ramp') or []:
                if q['unit'] == u:
                    row['init'] = q['init']
            S['joint_ramp'].append(row)
        if not S['joint_ramp']:
            del S['joint_ramp']
        else:
            soft('joint_ramp_cost')
            if not S.get('run_type') and d.p(0.2):
                fs_profiles(d, S, esum)
    for key, pool, prob in (('contingency', CONT, f['cont_trap']), ('regulation', REG, f['reg_trap'])):
        if not d.p(prob):
            continue
        rows = []
        for u, s, sv in have:
            if sv not in pool or not d.p(0.75):
                continue
            bdu = len(kinds[u]) == 2
            cap = int(esum.get((u, s, 'energy'), 20))
            lo_lim = -int(esum[(u, 'load', 'energy')]) if bdu else 0
            hi_lim = int(esum[(u, 'generator', 'energy')]) if bdu else cap
            if key == 'regulation' and bdu:
                lo_lim, hi_lim = (0, cap) if s == 'generator' else (-cap, 0)
            mx = max(1.0, d.x(1, int(esum[(u, s, sv)])))
            width = hi_lim - lo_lim
            a = sorted(d.i(0, 10) for _ in range(4))
            if d.p(0.5):
                a[0] = 0
            if d.p(0.5):
                a[3] = 10
            pts = [round(lo_lim + width * x / 10.0, 2) for x in a]
            rows.append({'unit': u, 'side': s, 'service': sv, 'max': mx, 'emin': pts[0], 'low': pts[1],
                         'high': pts[2], 'emax': pts[3]})
        if rows:
            S[key] = rows
            soft(key + '_cost')


def generic(d, f, S, services, esum):
    n = d.i(1, 3)
    S['generic'], gu, gr, gi = [], [], [], []
    sets = []
    for k in range(n):
        name = 'G%d' % (k + 1)
        sets.append(name)
        S['generic'].append({'set': name, 'type': d.pick(['<=', '>=', '=']), 'rhs': d.x(-50, 150)})
    targets = list(sets)
    if S.get('fcas_req') and d.p(0.3):
        targets.append(S['fcas_req'][0]['set'])
    svs = ['energy'] + services
    bid_units = sorted({(u, sv) for u, s, sv in esum})
    coef = lambda: d.pick([1.0, -1.0, 0.5, 2.0, -0.25, 0.1])
    for g in targets:
        for u, sv in bid_units:
            if d.p(0.35):
                gu.append({'set': g, 'unit': u, 'service': sv, 'coef': coef()})
        for r in S['regions']:
            if d.p(0.25):
                first = d.i(0, len(svs) - 1)
                for n in range(d.pick([1, 1, 2, 3])):       # the same region, several services
                    if n < len(svs):
                        gr.append({'set': g, 'region': r, 'service': svs[(first + n) % len(svs)], 'coef': coef()})
        for nme in sorted({k['name'] for k in S.get('inter') or []}):
            if d.p(0.4):
                gi.append({'set': g, 'inter': nme, 'coef': coef()})
        if g in sets and not any(q['set'] == g for q in gu + gr + gi) and not d.p(f['empty']):
            u, sv = bid_units[0]
            gu.append({'set': g, 'unit': u, 'service': sv, 'coef': 1.0})
    # a region link may name a service with no variable in that region; keep generic sets non-empty via gu
    if gu:
        S['generic_units'] = gu
    if gr:
        S['generic_regions'] = gr
    if gi:
        S['generic_inters'] = gi
    if d.p(0.7):
        S['generic_cost'] = d.elastic() if d.p(0.5) else d.cost_table(S['generic'])
