"""C18: historical bids and unit data reach the market scaled, filtered and labelled as AEMO's FCAS model prescribes."""
import math
import shutil
import tempfile

import hypothesis.strategies as st

import histdb
import nemde
from core import Part, check

ID = 'C18'
RULE = ('hypothesis draws a NEMDE file (1-4 units of every kind with energy and FCAS bids, trapeziums, telemetry, UIGF), '
        'the MMS unit details and AGC limits, and an order of calls; every table of UnitData is compared with an '
        'independent implementation of sections 4 and 5 of AEMO\'s "FCAS Model in NEMDE" and the documented unit data '
        'rules.  Non-trivial: some trapezium is scaled or some FCAS bid is filtered out while another is kept')
ASSUMPTIONS = ['bidirectional units bid contingency services on the generation side and regulation on either side, as in '
               'the market rules; AGC lower limits of bidirectional units are absent',
               'every unit of the case is in the dispatch results table (AEMO lists all of them)']
NAN = float('nan')
REG = ['R5RE', 'L5RE']
CON = ['R5MI', 'L5MI', 'R60S', 'L60S', 'R6SE', 'L6SE', 'R1SE', 'L1SE']
grid = st.sampled_from([0.0, 5.0, 10.0, 20.0, 25.0, 30.0, 40.0, 50.0, 60.0, 62.5, 75.0, 80.0, 100.0, 120.0])
UNITS = ['BW01', 'W/HOE#2', 'ADPBA1G', 'ARWF1']


@st.composite
def trapezium(draw, lo=0.0, hi=120.0):
    xs = sorted(draw(st.lists(st.integers(0, 12), min_size=4, max_size=4)))
    w = (hi - lo) / 12
    a, b, c, d = [round(lo + w * x, 5) for x in xs]
    if draw(st.integers(0, 3)) == 0:
        a = b
    if draw(st.integers(0, 3)) == 0:
        d = c
    return {'EnablementMin': a, 'LowBreakpoint': b, 'HighBreakpoint': c, 'EnablementMax': d}


@st.composite
def unit(draw, uid):
    typ = draw(st.sampled_from(['GENERATOR', 'GENERATOR', 'GENERATOR', 'LOAD', 'NORMALLY_ON_LOAD', 'WDR',
                                'BIDIRECTIONAL', 'BIDIRECTIONAL']))
    bdu = typ == 'BIDIRECTIONAL'
    energy = {'LOAD': 'LDOF', 'NORMALLY_ON_LOAD': 'LDOF', 'WDR': 'DROF', 'BIDIRECTIONAL': 'BDOF'}.get(typ, 'ENOF')
    trades = []
    nbands = st.sampled_from([0.0, 0.0, 5.0, 30.0])
    if draw(st.integers(0, 9)) > 0 or bdu:
        for d in (['GEN', 'LOAD'] if bdu else [None]):
            t = {'TradeType': energy, 'Direction': d, 'MaxAvail': draw(grid), 'RampUpRate': draw(grid) * 6,
                 'RampDnRate': draw(grid) * 6}
            trades.append(t)
    services = draw(st.lists(st.sampled_from(REG + REG + CON), min_size=0 if trades else 1, max_size=4, unique=True))
    for s in services:
        sides = [None]
        if bdu:
            sides = ['GEN'] if s in CON else draw(st.sampled_from([['GEN'], ['LOAD'], ['GEN', 'LOAD'], ['LOAD', 'GEN']]))
        for d in sides:
            lo, hi = 0.0, 120.0
            if bdu:
                lo, hi = (-120.0, 120.0) if s in CON else (0.0, 120.0) if d == 'GEN' else (-120.0, 0.0)
                if s in REG and draw(st.integers(0, 9)) == 0:     # a side may be bid on the other side of zero
                    lo, hi = -hi, -lo
            t = {'TradeType': s, 'Direction': d, 'MaxAvail': draw(st.sampled_from([0.0, 5.0, 10.0, 20.0, 25.0, 40.0]))}
            t.update(draw(trapezium(lo, hi)))
            trades.append(t)
    prices = []
    for t in trades:
        if t['TradeType'] in REG + CON and draw(st.integers(0, 7)) == 0:
            bands = [0.0] * 10
        else:
            bands = [draw(nbands) for _ in range(10)]
            if t['TradeType'] in REG + CON and draw(st.integers(0, 3)) == 0:
                bands = [0.0] * 10
            if t['TradeType'] in REG + CON and not any(bands):
                bands[draw(st.integers(0, 9))] = 5.0
        t.update({'BandAvail%d' % (i + 1): b for i, b in enumerate(bands)})
        p = {'TradeType': t['TradeType'], 'Direction': t['Direction']}
        base = draw(st.integers(-1000, 300))
        p.update({'PriceBand%d' % (i + 1): float(base + 17 * i) for i in range(10)})
        prices.append(p)
    # where the unit sits: mostly somewhere in, or on an edge of, one of its trapeziums
    spots = [0.0, 50.0, 60.0, -30.0]
    for t in trades:
        if 'EnablementMin' in t:
            spots += [t['EnablementMin'], t['EnablementMax'], (t['EnablementMin'] + t['EnablementMax']) / 2]
    init = draw(st.sampled_from(spots)) + draw(st.sampled_from([0.0, 0.0, 0.0, 0.000002, -0.000002, 0.5, -0.5]))
    initial = [['InitialMW', init], ['AGCStatus', draw(st.sampled_from([1, 1, 1, 0]))]]
    for k in ('SCADARampUpRate', 'SCADARampDnRate'):
        r = draw(st.sampled_from([None, None, 0.0, 60.0, 120.0, 180.0, 240.0, 303.0, 600.0, 12.5, 30.0]))
        if r is not None:
            initial.append([k, r])
    agc = []
    for svc in ('RAISEREG', 'LOWERREG'):
        agc += [draw(st.sampled_from([None, 0.0, 50.0, 80.0, 110.0, 200.0, 33.3, 0.5])),
                draw(st.sampled_from([None, 0.0, 0.0] + ([] if bdu else [10.0, 25.0, 40.0, 12.34567, 0.5])))]
    order = list(range(len(trades)))
    return {'id': uid, 'type': typ, 'initial': draw(st.permutations(initial)), 'fast': None,
            'prices': [prices[i] for i in draw(st.permutations(order))],
            'trades': [trades[i] for i in draw(st.permutations(order))],
            'uigf': draw(grid) if typ == 'GENERATOR' and draw(st.integers(0, 2)) == 0 else None, 'agc': agc,
            'details': None if draw(st.integers(0, 19)) == 0 else
            [draw(st.sampled_from(['NSW1', 'VIC1'])), draw(st.sampled_from([1.0, 0.95, 1.02, 0.8712])),
             draw(st.sampled_from([1.0, 0.98, 1.01])), draw(st.sampled_from([None, 0.9, 1.1])) if bdu or
             draw(st.integers(0, 5)) == 0 else None]}


def background(quiet=False):
    """What every NEM interval has: a semi-scheduled unit and an AGC controlled unit that regulates."""
    def price(t, base):
        return dict({'TradeType': t, 'Direction': None}, **{'PriceBand%d' % i: float(base + i) for i in range(1, 11)})

    def trade(t, m, trap):
        r = {'TradeType': t, 'Direction': None, 'MaxAvail': m}
        r.update({'BandAvail%d' % i: 7.0 if i == 3 else 0.0 for i in range(1, 11)})
        r.update(zip(['EnablementMin', 'LowBreakpoint', 'HighBreakpoint', 'EnablementMax'], trap) if trap else
                 {'RampUpRate': 300.0, 'RampDnRate': 300.0}.items())
        return r
    common = {'type': 'GENERATOR', 'fast': None, 'agc': [None] * 4, 'details': ['SA1', 1.0, 1.0, None]}
    us = [dict(common, id='BGW', initial=[['InitialMW', 20.0], ['AGCStatus', 0]], uigf=30.0,
                 prices=[price('ENOF', 10), price('L6SE', 2)],
                 trades=[trade('ENOF', 50.0, None), trade('L6SE', 5.0, [0.0, 5.0, 50.0, 50.0])]),
            dict(common, id='BGG', agc=[100.0, 20.0, 100.0, 20.0], initial=[['InitialMW', 60.0], ['AGCStatus', 1], ['SCADARampUpRate', 120.0],
                                            ['SCADARampDnRate', 120.0]], uigf=None,
                 prices=[price('ENOF', 10), price('R5RE', 2), price('L5RE', 2)],
                 trades=[trade('ENOF', 100.0, None), trade('R5RE', 15.0, [20.0, 40.0, 80.0, 100.0]),
                         trade('L5RE', 15.0, [20.0, 40.0, 80.0, 100.0])])]
    if quiet:           # the semi-scheduled unit offers energy only
        us[0]['prices'], us[0]['trades'] = us[0]['prices'][:1], us[0]['trades'][:1]
    return us


@st.composite
def case(draw):
    ids = draw(st.permutations(UNITS))[:draw(st.integers(1, 4))]
    return {'interval': draw(st.sampled_from(['2019/01/02 00:05:00', '2023/07/07 13:35:00', '2023/07/07 13:40:00',
                                              '2024/07/10 12:05:00', '2023/07/07 13:45:00'])),
            'units': [draw(unit(u)) for u in ids], 'again': draw(st.booleans()),
            'order': draw(st.permutations(['availability', 'uigf', 'ramp', 'scada', 'initial', 'info', 'bids'])),
            'quiet': draw(st.integers(0, 4)) == 0,
            'early': draw(st.sampled_from([None, None, 'add', 'max', 'reg', 'con']))}


def same(what, df, keys, vals, want):
    """df rows == want {key tuple: value tuple}; no row twice, none invented."""
    for c in keys + vals:
        check(c in df.columns, '%s: column %s missing from %r', what, c, list(df.columns))
    got = {}
    for row in df[keys + vals].itertuples(index=False):
        k = tuple(row[:len(keys)])
        check(k not in got, '%s: %r appears twice', what, k)
        got[k] = tuple(row[len(keys):])
    check(set(got) == set(want), '%s: missing %r, unexpected %r', what, sorted(set(want) - set(got), key=repr)[:3],
          sorted(set(got) - set(want), key=repr)[:3])
    for k, w in want.items():
        for c, g, e in zip(vals, got[k], w):
            if isinstance(e, str):
                check(g == e, '%s: %s of %r is %r, should be %r', what, c, k, g, e)
                continue
            g = NAN if g is None else float(g)
            e = NAN if e is None else float(e)
            check((math.isnan(g) and math.isnan(e)) or abs(g - e) <= 1e-7 * max(1, abs(e)),
                  '%s: %s of %r is %r, should be %r', what, c, k, g, e)


def side(u, d):
    if d is not None:
        return {'GEN': 'generator', 'LOAD': 'load'}[d]
    return 'load' if u['type'] == 'LOAD' else 'generator'


def val(u, k):
    for a, b in u['initial']:
        if a == k:
            return b
    return None


def effective(u, t):
    """Scaled trapezium of one FCAS trade: sections 4.1-4.3."""
    a, b, c, d, m = (t['EnablementMin'], t['LowBreakpoint'], t['HighBreakpoint'], t['EnablementMax'], t['MaxAvail'])
    scaled = False
    if t['TradeType'] in REG:
        amax, amin = u['agc'][0:2] if t['TradeType'] == 'R5RE' else u['agc'][2:4]
        if amin and amin > a:
            b, a, scaled = b + amin - a, amin, True
        if amax and amax < d:
            c, d, scaled = c - (d - amax), amax, True
        rate = val(u, 'SCADARampUpRate' if t['TradeType'] == 'R5RE' else 'SCADARampDnRate')
        if rate and rate * 5 / 60 < m:
            new = rate * 5 / 60
            if b != a:
                b = a + (b - a) * new / m
            if d != c:
                c = d - (d - c) * new / m
            m, scaled = new, True
    if u['uigf'] is not None and u['uigf'] < d:
        c, d, scaled = c - (d - u['uigf']), u['uigf'], True
    return (m, a, b, c, d), scaled


def energy_cap(u, d):
    for t in u['trades']:
        if t['TradeType'] not in REG + CON and t['Direction'] == d:
            return t['MaxAvail']
    return None


def enabled(u, t, eff, use_bid_cap):
    m, a, b, c, d = eff[id(t)][0]
    if m <= 0 or not any(t['BandAvail%d' % i] > 0 for i in range(1, 11)):
        return False
    if t['TradeType'] in REG and val(u, 'AGCStatus') == 0:
        return False
    init = round(val(u, 'InitialMW'), 5)
    if u['type'] != 'BIDIRECTIONAL':
        cap = energy_cap(u, None)
        if cap is not None and use_bid_cap and cap < a:
            return False
        return d >= 0 and a <= max(init, 0.0) <= d
    gen, load = energy_cap(u, 'GEN'), energy_cap(u, 'LOAD')
    if t['TradeType'] in CON:
        # one trapezium over the whole range of the unit
        return gen >= a and -load <= d and d >= 0 and a <= init <= d
    lo, hi = a, d
    if t['Direction'] == 'GEN':
        if not (d >= 0 and gen >= a):
            return False
    elif not (a <= 0 and -load <= d and load >= a):
        return False
    for o in u['trades']:     # regulation: the trapeziums of the two sides together
        if o is not t and o['TradeType'] == t['TradeType']:
            om, oa, ob, oc, od = eff[id(o)][0]
            if om <= 0 or not any(o['BandAvail%d' % i] > 0 for i in range(1, 11)):
                continue
            if (gen if o['Direction'] == 'GEN' else load) < oa:
                continue
            if t['Direction'] == 'GEN':
                lo = oa
            else:
                hi = od
    return lo <= init <= hi


def run(c):
    from nempy.historical_inputs import units as nu
    work = tempfile.mkdtemp(prefix='c18_')
    us = c['units'] + background(c.get('quiet', False))
    try:
        doc = {'interval': c['interval'], 'traders': us, 'constraints': [
            {'id': 'C', 'type': 'LE', 'cost': 1.0, 'unit': [], 'region': [], 'inter': []}],
            'solutions': [{'id': 'C', 'rhs': 1.0}], 'inters': [], 'region_solutions': [], 'violations': {}}
        det = [[u['id'], '2010/01/01 00:00:00', '2999/12/31 00:00:00', 'GENERATOR', 'CP_' + u['id'], u['details'][0],
                u['details'][1], u['details'][2], 'SCHEDULED', u['details'][3]] for u in us if u['details']]
        agc = [[c['interval'], u['id']] + u['agc'] for u in us]
        tables = {'DUDETAILSUMMARY': (['DUID', 'START_DATE', 'END_DATE', 'DISPATCHTYPE', 'CONNECTIONPOINTID', 'REGIONID',
                                       'TRANSMISSIONLOSSFACTOR', 'DISTRIBUTIONLOSSFACTOR', 'SCHEDULE_TYPE',
                                       'SECONDARY_TLF'], det),
                  'DISPATCHLOAD': (['SETTLEMENTDATE', 'DUID', 'RAISEREGENABLEMENTMAX', 'RAISEREGENABLEMENTMIN',
                                    'LOWERREGENABLEMENTMAX', 'LOWERREGENABLEMENTMIN'], agc)}
        ld = histdb.loader(work, c['interval'], doc, tables)
        ud = nu.UnitData(ld)
        labels = set()
        use_bid = c['interval'] >= '2023/07/07 13:40'
        fcas = [(u, t) for u in us for t in u['trades'] if t['TradeType'] in REG + CON]
        eff = {id(t): effective(u, t) for u, t in fcas}
        keep = [(u, t) for u, t in fcas if enabled(u, t, eff, use_bid or u['uigf'] is None)]
        info = {}
        for u in us:
            for t in u['trades']:
                if u['details']:
                    s = side(u, t['Direction'])
                    tlf = u['details'][1]
                    if u['type'] == 'BIDIRECTIONAL' and s == 'generator' and u['details'][3] is not None:
                        tlf = u['details'][3]
                    info[(u['id'], s)] = (u['details'][0], tlf * u['details'][2])
        name = nemde.TRADE_TO_NEMPY

        if c['early']:
            f = {'add': ud.add_fcas_trapezium_constraints, 'max': ud.get_fcas_max_availability,
                 'reg': ud.get_fcas_regulation_trapeziums, 'con': ud.get_contingency_services}[c['early']]
            try:
                f()
                ok = False
            except nu.MethodCallOrderError:
                ok = True
            check(ok, 'calling %s too early did not raise MethodCallOrderError', c['early'])
            labels.add('call order')

        bands = [str(i) for i in range(1, 11)]

        def one(what):
            if what == 'availability':
                same('bid availability', ud.get_unit_bid_availability(), ['unit', 'dispatch_type'], ['capacity'],
                     {(u['id'], side(u, t['Direction'])): (t['MaxAvail'],) for u in us for t in u['trades']
                      if t['TradeType'] not in REG + CON and (use_bid or u['uigf'] is None)})
            elif what == 'uigf':
                same('UIGF limits', ud.get_unit_uigf_limits(), ['unit'], ['capacity'],
                     {(u['id'],): (u['uigf'],) for u in us if u['uigf'] is not None})
            elif what == 'ramp':
                same('bid ramp rates', ud.get_bid_ramp_rates(), ['unit', 'dispatch_type'],
                     ['ramp_down_rate', 'ramp_up_rate', 'initial_output'],
                     {(u['id'], side(u, t['Direction'])): (t['RampDnRate'], t['RampUpRate'], val(u, 'InitialMW'))
                      for u in us for t in u['trades'] if t['TradeType'] not in REG + CON})
            elif what == 'scada':
                w = {(u['id'],): (val(u, 'SCADARampDnRate'), val(u, 'SCADARampUpRate'), val(u, 'InitialMW')) for u in us
                     if val(u, 'SCADARampDnRate') is not None or val(u, 'SCADARampUpRate') is not None}
                same('scada ramp rates', ud.get_scada_ramp_rates(inlude_initial_output=True), ['unit'],
                     ['scada_ramp_down_rate', 'scada_ramp_up_rate', 'initial_output'], w)
                same('scada ramp rates', ud.get_scada_ramp_rates(), ['unit'],
                     ['scada_ramp_down_rate', 'scada_ramp_up_rate'], {k: v[:2] for k, v in w.items()})
            elif what == 'initial':
                same('initial output', ud.get_initial_unit_output(), ['unit'], ['initial_output'],
                     {(u['id'],): (val(u, 'InitialMW'),) for u in us})
            elif what == 'info':
                same('unit info', ud.get_unit_info(), ['unit', 'dispatch_type'], ['region', 'loss_factor'], info)
            else:
                vol, price = ud.get_processed_bids()
                kept = [(u, t) for u in us if u['details'] for t in u['trades'] if t['TradeType'] not in REG + CON]
                kept += [(u, t) for u, t in keep if u['details']]
                same('volume bids', vol, ['unit', 'service', 'dispatch_type'], bands,
                     {(u['id'], name[t['TradeType']], side(u, t['Direction'])): tuple(t['BandAvail' + b] for b in bands)
                      for u, t in kept})
                want = {}
                for u, t in kept:
                    p = [x for x in u['prices'] if x['TradeType'] == t['TradeType'] and x['Direction'] == t['Direction']][0]
                    s = side(u, t['Direction'])
                    f = info[(u['id'], s)][1] if t['TradeType'] not in REG + CON else 1.0
                    want[(u['id'], name[t['TradeType']], s)] = tuple(p['PriceBand' + b] * f for b in bands)
                same('price bids', price, ['unit', 'service', 'dispatch_type'], bands, want)
                ud.add_fcas_trapezium_constraints()
                trap = {(u['id'], name[t['TradeType']], side(u, t['Direction'])): eff[id(t)][0] for u, t in keep}
                cols = ['max_availability', 'enablement_min', 'low_break_point', 'high_break_point', 'enablement_max']
                keys = ['unit', 'service', 'dispatch_type']
                same('FCAS max availability', ud.get_fcas_max_availability(), keys, cols[:1],
                     {k: v[:1] for k, v in trap.items()})
                same('regulation trapeziums', ud.get_fcas_regulation_trapeziums(), keys, cols,
                     {k: v for k, v in trap.items() if 'reg' in k[1]})
                same('contingency trapeziums', ud.get_contingency_services(), keys, cols,
                     {k: v for k, v in trap.items() if 'reg' not in k[1]})

        for what in c['order']:
            one(what)
        if c['again']:
            for what in c['order'][::-1]:
                one(what)
        if any(eff[id(t)][1] for u, t in fcas if u['id'][:2] != 'BG'):
            labels.add('scaled')
        if 3 < len(keep) < len(fcas):
            labels.add('filtered')
        if any(u['type'] == 'BIDIRECTIONAL' for u in us):
            labels.add('bidirectional')
        return {'nontrivial': 'scaled' in labels or 'filtered' in labels, 'labels': sorted(labels)}
    finally:
        shutil.rmtree(work, ignore_errors=True)


def parts():
    return [Part('pipeline', case, run, 1600, 60000)]
