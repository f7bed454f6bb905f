"""Hypothesis strategies for NEMDE case files (see nemde.to_xml)."""
import hypothesis.strategies as st

import nemde

UNITS = ['BW01', 'W/HOE#2', 'ADPBA1G', 'ARWF1', 'TORRB1']
REGIONS = ['NSW1', 'VIC1', 'TAS1', 'SA1']
CONS = ['N>>N-NIL_1', 'V^^S_NIL', 'F_MAIN++ML_L5_0400', "Q&R'S_\"T\"", 'T<>V', 'NORMAL_1']
INTERS = ['NSW1-QLD1', 'V-SA', 'T-V-MNSP1', 'N-Q-MNSP1']
mw = st.one_of(st.integers(0, 700).map(float), st.integers(-500, 5000).map(lambda x: x / 8),
               st.sampled_from([0.0, 1e-05, 123.456789, 0.1]))
pos = st.one_of(st.integers(0, 700).map(float), st.sampled_from([0.0, 12.5, 350.25, 0.1, 1e-05]))
price = st.one_of(st.integers(-1000, 14500).map(float), st.sampled_from([-966.92, 53.28, 0.0, 14699.99]))


@st.composite
def interval(draw):
    d = draw(st.sampled_from([(2019, 1, 2), (2018, 12, 31), (2020, 2, 29), (2020, 3, 1), (2021, 1, 1), (2013, 10, 5)]))
    n = draw(st.one_of(st.integers(0, 287), st.sampled_from([0, 1, 47, 48, 49, 287])))
    return '%04d/%02d/%02d %02d:%02d:00' % (d + divmod(n * 5, 60))


@st.composite
def trader(draw, uid, intervention):
    typ = draw(st.sampled_from(['GENERATOR', 'GENERATOR', 'LOAD', 'NORMALLY_ON_LOAD', 'WDR', 'BIDIRECTIONAL']))
    init = [['AGCStatus', draw(st.sampled_from([0, 1]))], ['HMW', draw(mw)], ['LMW', draw(mw)],
            ['InitialMW', draw(mw)]]
    if intervention:
        init.append(['WhatIfInitialMW', draw(mw)])
    if draw(st.booleans()):
        init += [['SCADARampUpRate', draw(pos)], ['SCADARampDnRate', draw(pos)]]
    init = [i for i in init if i[0] in ('InitialMW', 'WhatIfInitialMW') or draw(st.integers(0, 5)) > 0]
    init = draw(st.permutations(init))
    fast = None
    if draw(st.integers(0, 2)) == 0:
        fast = {'FastStart': '1', 'MinLoadingMW': draw(st.integers(0, 90)), 'CurrentMode': draw(st.integers(0, 4)),
                'CurrentModeTime': draw(st.integers(0, 40)), 'T1': draw(st.integers(0, 30)),
                'T2': draw(st.integers(0, 30)), 'T3': draw(st.integers(0, 30)), 'T4': draw(st.integers(0, 30))}
        if intervention and draw(st.booleans()):
            fast['WhatIfCurrentMode'] = draw(st.integers(0, 4))
            fast['WhatIfCurrentModeTime'] = draw(st.integers(0, 40))
    energy = {'LOAD': 'LDOF', 'NORMALLY_ON_LOAD': 'LDOF', 'WDR': 'DROF', 'BIDIRECTIONAL': 'BDOF'}.get(typ, 'ENOF')
    keys = [(energy, d) for d in (['GEN', 'LOAD'] if typ == 'BIDIRECTIONAL' else [None])]
    for s in ['R5RE', 'L5RE', 'R5MI', 'L5MI', 'R60S', 'L60S', 'R6SE', 'L6SE', 'R1SE', 'L1SE']:
        if draw(st.integers(0, 4)) == 0:
            keys += [(s, d) for d in (['GEN', 'LOAD'] if typ == 'BIDIRECTIONAL' and draw(st.booleans()) else
                                      ['GEN'] if typ == 'BIDIRECTIONAL' else [None])]
    keys = draw(st.permutations(keys))
    prices, trades = [], []
    for s, d in keys:
        p = {'TradeType': s, 'Direction': d}
        bands = sorted(draw(st.lists(price, min_size=10, max_size=10)))
        p.update({'PriceBand%d' % (i + 1): b for i, b in enumerate(bands)})
        prices.append(p)
        t = {'TradeType': s, 'Direction': d, 'MaxAvail': draw(pos)}
        if s == energy:
            t.update({'RampUpRate': draw(pos), 'RampDnRate': draw(pos)})
        else:
            t.update({'EnablementMin': draw(pos), 'EnablementMax': draw(pos), 'LowBreakpoint': draw(pos),
                      'HighBreakpoint': draw(pos)})
        if draw(st.integers(0, 3)) == 0:      # some files carry the full attribute set on every trade
            for k in ['RampUpRate', 'RampDnRate', 'EnablementMin', 'EnablementMax', 'LowBreakpoint', 'HighBreakpoint']:
                t.setdefault(k, draw(pos))
        t.update({'BandAvail%d' % (i + 1): draw(st.sampled_from([0.0, 0.0, 5.0, 100.0, 33.3])) for i in range(10)})
        trades.append(t)
    return {'id': uid, 'type': typ, 'region': draw(st.sampled_from(REGIONS)), 'initial': [list(i) for i in init],
            'fast': fast, 'prices': prices, 'trades': draw(st.permutations(trades)),
            'uigf': draw(mw) if draw(st.booleans()) else None}


@st.composite
def constraint(draw, cid):
    lhs = draw(st.integers(0, 6))
    svc = st.sampled_from(['ENOF', 'LDOF', 'R5RE', 'L5RE', 'R5MI', 'L5MI', 'R60S', 'L60S', 'R6SE', 'L6SE', 'R1SE', 'L1SE',
                           'DROF', 'BDOF'])
    fac = st.sampled_from([1.0, -1.0, 0.5, 0.123456, -0.25])
    u = draw(st.lists(st.tuples(st.sampled_from(UNITS), svc), max_size=3, unique=True)) if lhs > 1 else []
    r = draw(st.lists(st.tuples(st.sampled_from(REGIONS), svc), max_size=3, unique=True)) if lhs > 1 else []
    i = draw(st.lists(st.sampled_from(INTERS), max_size=2, unique=True)) if lhs > 1 else []
    return {'id': cid, 'type': draw(st.sampled_from(['LE', 'GE', 'EQ'])), 'cost': draw(pos),
            'unit': [[a, b, draw(fac)] for a, b in u], 'region': [[a, b, draw(fac)] for a, b in r],
            'inter': [[a, draw(fac)] for a in i]}


@st.composite
def document(draw):
    inter = draw(st.integers(0, 2)) == 0
    units = draw(st.lists(st.sampled_from(UNITS), min_size=1, max_size=4, unique=True))
    cons = draw(st.lists(st.sampled_from(CONS), min_size=1, max_size=4, unique=True))
    inters = []
    for i in draw(st.lists(st.sampled_from(INTERS), min_size=1, max_size=3, unique=True)):
        d = draw(st.permutations(REGIONS))
        m = 'MNSP' in i
        inters.append({'id': i, 'mnsp': m, 'from': d[0], 'to': d[1], 'offers': [
            [x, draw(pos)] for x in draw(st.permutations(d[:2]))[:draw(st.sampled_from([1, 2, 2]))]] if m else None})
    regs = []
    for r in draw(st.lists(st.sampled_from(REGIONS), min_size=1, max_size=3, unique=True)):
        for k in (['0', '1'] if inter else ['0']):
            row = {'RegionID': r, 'Intervention': k, 'EnergyPrice': draw(price)}
            for s in ['R5Price', 'L5Price', 'R60Price', 'L60Price', 'R6Price', 'L6Price', 'R1Price', 'L1Price']:
                if s[:2] not in ('R1', 'L1') or draw(st.booleans()):
                    row[s] = draw(pos)
            regs.append(row)
    sols = [{'id': c, 'rhs': draw(mw), 'intervention': k} for c in cons for k in (['0', '1'] if inter else ['0'])]
    return {'intervention': inter, 'reverse_runs': draw(st.booleans()),
            'traders': [draw(trader(u, inter)) for u in units],
            'constraints': [draw(constraint(c)) for c in cons], 'solutions': draw(st.permutations(sols)),
            'inters': inters, 'region_solutions': regs, 'entered': [['E1', 1.0]],
            'prices': {k: draw(pos) for k in nemde.PRICES},
            'violations': {k: [draw(st.sampled_from(['case', 'period'])), draw(st.sampled_from([0.0, 0.0, 1.5, 20.0]))]
                           for k in nemde.VIOLATIONS}}
