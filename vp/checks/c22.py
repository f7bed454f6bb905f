"""C22: recreating an interval from its published files solves exactly the dispatch problem they describe."""
import shutil
import tempfile

import hypothesis.strategies as st

import histdb
import mkt
import nemde
import refmarket as rm
from checks import c18, c19
from core import Part, Skip, check

ID = 'C22'
RULE = ('hypothesis draws a complete interval (units of every kind with bids, trapeziums, telemetry, fast start profiles; '
        'regulated and market interconnectors with loss models; generic and FCAS constraints; demand; violation prices), '
        'writes it as a NEMDE file and MMS tables, and runs nempy\'s documented call sequence: load, first pass, fast '
        'start commitment, second pass.  Both passes are compared with the reference MILP built directly from the drawn '
        'data.  Non-trivial: both passes solve and an FCAS, generic, fast start or ramp limit binds in the second')
ASSUMPTIONS = ['constraints with region terms are FCAS requirements with unit factors, as in AEMO\'s data',
               'first pass targets of off line fast start units are zero or above the 0.005 MW commitment threshold',
               'trapeziums have a non zero width between enablement limits']
REGIONS = ['NSW1', 'VIC1', 'SA1', 'TAS1']
SVC = nemde.TRADE_TO_NEMPY
FCAS = c18.REG + c18.CON
UNITS = ['BW01', 'W/HOE#2', 'ADPBA1G', 'ARWF1', 'TORRB1']
COST = st.sampled_from([5000.0, 20000.0, 100000.0, 50000.0])


@st.composite
def unit(draw, uid):
    u = draw(c18.unit(uid))
    bdu = u['type'] == 'BIDIRECTIONAL'
    u['details'] = [draw(st.sampled_from(REGIONS)), draw(st.sampled_from([1.0, 0.95, 1.02])),
                    draw(st.sampled_from([1.0, 0.98])), draw(st.sampled_from([None, 0.9])) if bdu else None]
    base = draw(st.integers(-40, 80))
    for t, p in [(t, p) for t in u['trades'] for p in u['prices'] if p['TradeType'] == t['TradeType'] and
                 p['Direction'] == t['Direction']]:
        n = draw(st.integers(1, 3))
        bands = [0.0] * 10
        for k in range(n):
            bands[draw(st.integers(0, 9))] = draw(st.sampled_from([5.0, 10.0, 25.0, 40.0]))
        if t['TradeType'] in FCAS:
            bands = [b / 2 for b in bands]
            start = draw(st.integers(0, 20))
        else:
            t['MaxAvail'] = draw(st.sampled_from([0.0, 20.0, 35.0, 60.0, 100.0, 100.0]))
            start = base + draw(st.integers(0, 5)) - (150 if t['Direction'] == 'LOAD' else 0)
        step = draw(st.sampled_from([7, 13]))
        t.update({'BandAvail%d' % (i + 1): b for i, b in enumerate(bands)})
        p.update({'PriceBand%d' % (i + 1): float(start + step * i) for i in range(10)})
    lim = {d: sum(t['BandAvail%d' % i] for i in range(1, 11)) for t in u['trades'] if t['TradeType'] not in FCAS
           for d in [t['Direction']]}
    if not lim:
        u['uigf'] = None
    init = [k for k in u['initial'] if k[0] == 'InitialMW'][0]
    if draw(st.booleans()) or (init[1] < 0 and not bdu):
        lo = -lim.get('LOAD', 0.0) if bdu else 0.0
        hi = lim.get('GEN', 0.0) if bdu else lim.get(None, 0.0)
        init[1] = float(draw(st.integers(int(lo), int(hi))))
    if u['type'] == 'GENERATOR' and u['uigf'] is None and lim and draw(st.integers(0, 2)) == 0:
        T = [draw(st.sampled_from([1, 2, 3, 5, 10])) for _ in range(4)]
        mode = draw(st.integers(0, 4))
        u['fs'] = {'T': T, 'mode': mode, 'time': draw(st.integers(0, T[mode - 1])) if mode else 0,
                   'min': draw(st.sampled_from([0, 10, 25]))}
        u['fast'] = {'FastStart': '1', 'MinLoadingMW': u['fs']['min'], 'CurrentMode': mode,
                     'CurrentModeTime': u['fs']['time']}
        u['fast'].update({'T%d' % (i + 1): x for i, x in enumerate(T)})
        if mode < 2:
            init[1] = 0.0
    return u


@st.composite
def case(draw):
    ids = draw(st.permutations(UNITS))[:draw(st.integers(2, 5))]
    us = [draw(unit(u)) for u in ids]
    if not any(u.get('fs') for u in us):     # every NEM interval has fast start plant
        us.append({'id': 'BGF', 'type': 'GENERATOR', 'initial': [['InitialMW', 0.0], ['AGCStatus', 0]], 'uigf': None,
                   'agc': [None] * 4, 'details': ['VIC1', 1.0, 1.0, None],
                   'fs': {'T': [5, 5, 5, 5], 'mode': 0, 'time': 0, 'min': 5},
                   'fast': {'FastStart': '1', 'MinLoadingMW': 5, 'CurrentMode': 0, 'CurrentModeTime': 0, 'T1': 5, 'T2': 5,
                            'T3': 5, 'T4': 5},
                   'prices': [dict({'TradeType': 'ENOF', 'Direction': None},
                                   **{'PriceBand%d' % i: 300.0 + i for i in range(1, 11)})],
                   'trades': [dict({'TradeType': 'ENOF', 'Direction': None, 'MaxAvail': 30.0, 'RampUpRate': 300.0,
                                    'RampDnRate': 300.0}, **{'BandAvail%d' % i: 30.0 if i == 1 else 0.0
                                                             for i in range(1, 11)})]})
    inters = []
    for i, a, b in [['V-SA', 'VIC1', 'SA1'], ['VIC1-NSW1', 'VIC1', 'NSW1'], ['T-V-MNSP1', 'TAS1', 'VIC1']]:
        if i != 'T-V-MNSP1' and draw(st.integers(0, 3)) == 0:
            continue
        lim = draw(st.sampled_from([20, 60, 150]))
        pts = sorted(set([-3, 3] + draw(st.lists(st.integers(-2, 2), max_size=3))))
        x = {'id': i, 'mnsp': i == 'T-V-MNSP1', 'from': a, 'to': b, 'import': float(lim),
             'export': float(draw(st.sampled_from([20, 60, 150]))), 'const': draw(st.sampled_from([1.0, 1.02, 0.97])),
             'coef': draw(st.sampled_from([0.0, 1e-4, 4e-4])), 'share': draw(st.sampled_from([0.5, 0.0, 1.0, 0.67])),
             'demand': [[r, draw(st.sampled_from([1e-4, -2e-5]))] for r in
                        draw(st.lists(st.sampled_from(REGIONS), max_size=2, unique=True))],
             'breaks': [60.0 * p for p in pts], 'offers': None, 'links': []}
        if x['mnsp']:
            x['offers'] = [[a, float(draw(st.sampled_from([20, 60, 150])))], [b, float(draw(st.sampled_from([20, 60])))]]
            x['links'] = [['BLTV', a, b, 1.0, draw(st.sampled_from([1.0, 0.98])), draw(st.sampled_from([1.0, 0.97]))],
                          ['BLVT', b, a, -1.0, draw(st.sampled_from([1.0, 0.98])), draw(st.sampled_from([1.0, 0.97]))]]
        inters.append(x)
    cons = []
    svs = sorted({t['TradeType'] for u in us for t in u['trades'] if t['TradeType'] in FCAS} | {'R5RE', 'L5RE', 'L6SE'})
    for k in range(draw(st.integers(1, 4))):
        x = {'id': 'K%d' % k, 'type': draw(st.sampled_from(['GE', 'GE', 'LE', 'EQ'])), 'cost': draw(COST), 'region': [],
             'rhs': float(draw(st.integers(0, 60))), 'unit': [], 'inter': []}
        fac = st.sampled_from([1.0, -1.0, 0.5])
        if draw(st.booleans()):
            sv = draw(st.sampled_from(svs))
            x['region'] = [[r, sv, 1.0] for r in draw(st.lists(st.sampled_from(REGIONS), min_size=1, unique=True))]
            x['type'] = draw(st.sampled_from(['GE', 'GE', 'EQ']))
            x['rhs'] = float(draw(st.integers(0, 20)))
        lhs = draw(st.integers(0, 3))
        if lhs or not x['region']:
            pool = [(u['id'], t['TradeType']) for u in us for t in u['trades']]
            pool = sorted(set(pool))
            x['unit'] = [[a, b, draw(fac)] for a, b in draw(st.lists(st.sampled_from(pool), min_size=1, max_size=3,
                                                                     unique=True))]
        if lhs > 1:
            x['inter'] = [[i, draw(fac)] for i in draw(st.lists(st.sampled_from([i['id'] for i in inters]), max_size=2,
                                                                unique=True))]
        cons.append(x)
    cons += [{'id': 'BG_F', 'type': 'GE', 'cost': 20000.0, 'region': [['SA1', 'L6SE', 1.0]], 'rhs': 1.0, 'unit': [],
              'inter': []},
             {'id': 'BG_G', 'type': 'LE', 'cost': 20000.0, 'region': [], 'rhs': 500.0, 'unit': [['BGG', 'ENOF', 1.0]],
              'inter': [['T-V-MNSP1', 1.0]]}]
    supply = sum(t['BandAvail%d' % i] for u in us for t in u['trades'] for i in range(1, 11)
                 if t['TradeType'] in ('ENOF', 'DROF'))
    return {'units': us, 'inters': inters, 'cons': cons, 'prices': {k: draw(COST) for k in nemde.PRICES},
            'tie': draw(st.sampled_from([1e-3, 1e-2])),
            'demand': [[r, round(supply * draw(st.integers(0, 40)) / 100.0, 1)] for r in draw(st.permutations(REGIONS))],
            'initial_demand': [[r, draw(st.sampled_from([0.0, 100.0, 500.0])), draw(st.sampled_from([0.0, 20.0, -30.0]))]
                               for r in REGIONS]}


def scenario(c, us):
    """The drawn interval as a reference scenario (first pass)."""
    name = SVC
    S = {'regions': REGIONS, 'interval': 5, 'units': [], 'bids': [], 'capacity': [], 'uigf': [], 'ramp': [], 'scada': [],
         'ramp_fs': [], 'run_type': 'first', 'fcas_max': [], 'joint_ramp': [], 'contingency': [], 'regulation': [],
         'inter': [], 'losses': [], 'generic': [], 'generic_units': [], 'generic_inters': [], 'fcas_req': [],
         'perm': 0}
    eff = {id(t): c18.effective(u, t) for u in us for t in u['trades'] if t['TradeType'] in FCAS}
    for u in us:
        init = c18.val(u, 'InitialMW')
        sides, lf = [], {}
        for t in u['trades']:
            s = c18.side(u, t['Direction'])
            if s not in sides:
                sides.append(s)
                tlf = u['details'][1]
                if u['type'] == 'BIDIRECTIONAL' and s == 'generator' and u['details'][3] is not None:
                    tlf = u['details'][3]
                lf[s] = tlf * u['details'][2]
            if t['TradeType'] in FCAS and not c18.enabled(u, t, eff, True):
                continue
            p = [x for x in u['prices'] if x['TradeType'] == t['TradeType'] and x['Direction'] == t['Direction']][0]
            f = 1.0 if t['TradeType'] in FCAS else lf[s]
            S['bids'].append({'unit': u['id'], 'side': s, 'service': name[t['TradeType']],
                              'vol': [t['BandAvail%d' % i] for i in range(1, 11)],
                              'price': [p['PriceBand%d' % i] * f for i in range(1, 11)]})
            if t['TradeType'] in FCAS:
                m, a, b, h, d = eff[id(t)][0]
                q = {'unit': u['id'], 'side': s, 'service': name[t['TradeType']], 'max': m, 'emin': a, 'low': b, 'high': h,
                     'emax': d}
                S['fcas_max'].append(q)
                S['regulation' if t['TradeType'] in c18.REG else 'contingency'].append(q)
            else:
                S['capacity'].append({'unit': u['id'], 'side': s, 'cap': t['MaxAvail']})
                S['ramp'].append({'unit': u['id'], 'side': s, 'init': init, 'up': t['RampUpRate'],
                                  'down': t['RampDnRate']})
        S['units'].append({'unit': u['id'], 'region': u['details'][0], 'sides': sides, 'lf': lf})
        up, down = c18.val(u, 'SCADARampUpRate'), c18.val(u, 'SCADARampDnRate')
        if up is not None or down is not None:
            S['scada'].append({'unit': u['id'], 'up': up, 'down': down})
            S['joint_ramp'].append({'unit': u['id'], 'up': up, 'down': down, 'init': init})
        if u['uigf'] is not None:
            S['uigf'].append({'unit': u['id'], 'cap': u['uigf']})
        if u.get('fs'):
            S['ramp_fs'].append({'unit': u['id'], 'current_mode': u['fs']['mode']})
    dem = {r: a + b for r, a, b in c['initial_demand']}
    for x in c['inters']:
        const = x['const'] + sum(v * dem[r] for r, v in x['demand'])
        offer = dict(map(tuple, x['offers'] or []))
        rows = [(l, a, b, g, fa, ta, 0.0, offer[b]) for l, a, b, g, fa, ta in x['links']] or \
               [(x['id'], x['from'], x['to'], 1.0, 1.0, 1.0, -x['import'], x['export'])]
        for l, a, b, g, fa, ta, lo, hi in rows:
            S['inter'].append({'name': x['id'], 'link': l, 'from': a, 'to': b, 'min': lo, 'max': hi, 'from_lf': fa,
                               'to_lf': ta, 'gcf': g})
            S['losses'].append({'name': x['id'], 'link': l, 'from_share': 1.0 if x['mnsp'] else x['share'], 'lin': 0.0,
                                'quad': x['coef'] / 2, 'asym': (const - 1) * g, 'breaks': [p * g for p in x['breaks']]})
    typ = {'LE': '<=', 'GE': '>=', 'EQ': '='}
    S['fcas_cost'], S['generic_cost'] = {}, {}
    for k in c['cons']:
        if k['region']:
            S['fcas_req'].append({'set': k['id'], 'service': SVC[k['region'][0][1]], 'regions': [r[0] for r in k['region']],
                                  'volume': k['rhs'], 'type': typ[k['type']]})
            S['fcas_cost'][k['id']] = k['cost']
        else:
            S['generic'].append({'set': k['id'], 'type': typ[k['type']], 'rhs': k['rhs']})
            S['generic_cost'][k['id']] = k['cost']
        S['generic_units'] += [{'set': k['id'], 'unit': a, 'service': SVC[b], 'coef': f} for a, b, f in k['unit']]
        S['generic_inters'] += [{'set': k['id'], 'inter': a, 'coef': f} for a, f in k['inter']]
    S['demand'] = {r: d for r, d in c['demand']}
    P = c['prices']
    S.update(capacity_cost=P['unit_capacity'], uigf_cost=P['uigf'], ramp_cost=P['ramp_rate'],
             fcas_max_cost=P['fcas_max_avail'], regulation_cost=P['fcas_profile'], contingency_cost=P['fcas_profile'],
             joint_ramp_cost=P['fcas_profile'], demand_cost=P['regional_demand'], tie_break=c['tie'])
    return S


def loader(c, us, work):
    interval, eff = '2024/07/10 12:05:00', '2020/07/01 00:00:00'
    doc = {'interval': interval, 'traders': us, 'constraints': c['cons'],
           'solutions': [{'id': k['id'], 'rhs': k['rhs']} for k in c['cons']], 'inters': c['inters'],
           'region_solutions': [], 'prices': dict(c['prices'], tiebreak=c['tie']), 'violations': {}}
    T = {'DUDETAILSUMMARY': (['DUID', 'START_DATE', 'END_DATE', 'DISPATCHTYPE', 'CONNECTIONPOINTID', 'REGIONID',
                              'TRANSMISSIONLOSSFACTOR', 'DISTRIBUTIONLOSSFACTOR', 'SCHEDULE_TYPE', 'SECONDARY_TLF'],
                             [[u['id'], '2010/01/01 00:00:00', '2999/12/31 00:00:00', 'GENERATOR', 'CP_' + u['id'],
                               u['details'][0], u['details'][1], u['details'][2], 'SCHEDULED', u['details'][3]]
                              for u in us]),
         'DISPATCHLOAD': (['SETTLEMENTDATE', 'DUID', 'RAISEREGENABLEMENTMAX', 'RAISEREGENABLEMENTMIN',
                           'LOWERREGENABLEMENTMAX', 'LOWERREGENABLEMENTMIN'],
                          [[interval, u['id']] + u['agc'] for u in us]),
         'INTERCONNECTOR': (['INTERCONNECTORID', 'REGIONFROM', 'REGIONTO'],
                            [[x['id'], x['from'], x['to']] for x in c['inters']]),
         'INTERCONNECTORCONSTRAINT': (['INTERCONNECTORID', 'EFFECTIVEDATE', 'VERSIONNO', 'FROMREGIONLOSSSHARE',
                                       'LOSSCONSTANT', 'ICTYPE', 'LOSSFLOWCOEFFICIENT', 'IMPORTLIMIT', 'EXPORTLIMIT'],
                                      [[x['id'], eff, 1, x['share'], x['const'], 'MNSP' if x['mnsp'] else 'REGULATED',
                                        x['coef'], x['import'], x['export']] for x in c['inters']]),
         'LOSSMODEL': (['INTERCONNECTORID', 'EFFECTIVEDATE', 'VERSIONNO', 'LOSSSEGMENT', 'MWBREAKPOINT'],
                       [[x['id'], eff, 1, str(j + 1), b] for x in c['inters'] for j, b in enumerate(x['breaks'])]),
         'LOSSFACTORMODEL': (['INTERCONNECTORID', 'EFFECTIVEDATE', 'VERSIONNO', 'REGIONID', 'DEMANDCOEFFICIENT'],
                             [[x['id'], eff, 1, r, v] for x in c['inters'] for r, v in x['demand']]),
         'MNSP_INTERCONNECTOR': (['INTERCONNECTORID', 'LINKID', 'EFFECTIVEDATE', 'VERSIONNO', 'FROMREGION', 'TOREGION',
                                  'FROM_REGION_TLF', 'TO_REGION_TLF', 'LHSFACTOR', 'MAXCAPACITY'],
                                 [[x['id'], l, eff, 1, a, b, fa, ta, g, 500.0] for x in c['inters']
                                  for l, a, b, g, fa, ta in x['links']]),
         'DISPATCHREGIONSUM': (['SETTLEMENTDATE', 'REGIONID', 'TOTALDEMAND', 'DEMANDFORECAST', 'INITIALSUPPLY'],
                               [[interval, r, dict(map(tuple, c['demand']))[r], f, s] for r, s, f in c['initial_demand']]),
         'DISPATCHINTERCONNECTORRES': (['INTERCONNECTORID', 'SETTLEMENTDATE', 'MWFLOW', 'MWLOSSES'],
                                       [[x['id'], interval, 1.0, 0.1] for x in c['inters']])}
    return histdb.loader(work, interval, doc, T)


def first_pass(ld):
    """The documented sequence of calls up to the first dispatch."""
    from nempy import markets
    from nempy.historical_inputs import constraints, demand, interconnectors, units
    ui, ii = units.UnitData(ld), interconnectors.InterconnectorData(ld)
    ci, di = constraints.ConstraintData(ld), demand.DemandData(ld)
    m = markets.SpotMarket(market_regions=REGIONS, unit_info=ui.get_unit_info())
    vol, price = ui.get_processed_bids()
    m.set_unit_volume_bids(vol)
    m.set_unit_price_bids(price)
    P = ci.get_constraint_violation_prices()
    m.set_unit_bid_capacity_constraints(ui.get_unit_bid_availability(), violation_cost=P['unit_capacity'])
    m.set_unconstrained_intermittent_generation_forecast_constraint(ui.get_unit_uigf_limits(), violation_cost=P['uigf'])
    fs = ui.get_fast_start_profiles_for_dispatch()
    m.set_unit_ramp_rate_constraints(ui.get_bid_ramp_rates(), ui.get_scada_ramp_rates(), fs,
                                     run_type='fast_start_first_run', violation_cost=P['ramp_rate'])
    ui.add_fcas_trapezium_constraints()
    m.set_fcas_max_availability(ui.get_fcas_max_availability(), violation_cost=P['fcas_max_avail'])
    m.set_energy_and_regulation_capacity_constraints(ui.get_fcas_regulation_trapeziums(), violation_cost=P['fcas_profile'])
    m.set_joint_ramping_constraints_reg(ui.get_scada_ramp_rates(inlude_initial_output=True), fs,
                                        run_type='fast_start_first_run', violation_cost=P['fcas_profile'])
    m.set_joint_capacity_constraints(ui.get_contingency_services(), violation_cost=P['fcas_profile'])
    m.set_interconnectors(ii.get_interconnector_definitions())
    lf, bp = ii.get_interconnector_loss_model()
    m.set_interconnector_losses(lf, bp)
    cost = ci.get_violation_costs()
    m.set_fcas_requirements_constraints(ci.get_fcas_requirements(), violation_cost=cost)
    m.set_generic_constraints(ci.get_rhs_and_type_excluding_regional_fcas_constraints(), violation_cost=cost)
    m.link_units_to_generic_constraints(ci.get_unit_lhs())
    m.link_interconnectors_to_generic_constraints(ci.get_interconnector_lhs())
    m.set_demand_constraints(di.get_operational_demand(), violation_cost=P['regional_demand'])
    m.set_tie_break_constraints(P['tiebreak'])
    return m, ui, P


def second_pass(m, ui, P):
    fs = ui.get_fast_start_profiles_for_dispatch(m.get_unit_dispatch())
    m.set_fast_start_constraints(fs.loc[:, ['unit', 'end_mode', 'time_in_end_mode', 'mode_two_length', 'mode_four_length',
                                            'min_loading']], violation_cost=P['fast_start'])
    fs = fs.loc[:, ['unit', 'end_mode', 'time_since_end_of_mode_two', 'min_loading']]
    m.set_unit_ramp_rate_constraints(ui.get_bid_ramp_rates(), ui.get_scada_ramp_rates(), fs,
                                     run_type='fast_start_second_run', violation_cost=P['ramp_rate'])
    m.set_joint_ramping_constraints_reg(ui.get_scada_ramp_rates(inlude_initial_output=True), fs,
                                        run_type='fast_start_second_run', violation_cost=P['fcas_profile'])


def run(c):
    work = tempfile.mkdtemp(prefix='c22_')
    try:
        us = c['units'] + c18.background()
        S = scenario(c, us)
        m, ui, P = first_pass(loader(c, us, work))
        ref, out, v = rm.agree(S, m=m)
        if out is None:
            return {'nontrivial': False, 'labels': ['infeasible']}
        S = dict(S, run_type='second', ramp_fs=[], fast_start=[], fast_start_cost=c['prices']['fast_start'])
        committed = False
        for u in us:
            if u.get('fs'):
                x = out.energy(u['id'])
                if u['fs']['mode'] == 0 and 1e-9 < abs(x) < 0.006:
                    raise Skip('target at the commitment threshold')
                mode, t, since = c19.simulate(u['fs'], x if abs(x) > 1e-9 else 0.0)
                committed = committed or mode != u['fs']['mode']
                S['ramp_fs'].append({'unit': u['id'], 'end_mode': mode, 'min_loading': u['fs']['min'], 'since': since})
                S['fast_start'].append({'unit': u['id'], 'end_mode': mode, 'time': t, 'm2': u['fs']['T'][1],
                                        'm4': u['fs']['T'][3], 'min': u['fs']['min']})
        second_pass(m, ui, P)
        ref, out, v = rm.agree(S, m=m)
        labels = mkt.labels(S, ref, out)
        if committed:
            labels.append('mode change')
        nt = out is not None and mkt.binding(ref, ref.pinned_values, [
            'fcas', 'generic', 'fast_start', 'ramp_up', 'ramp_down', 'joint_capacity', 'energy_and_regulation_capacity',
            'joint_ramping_raise_reg', 'joint_ramping_lower_reg', 'bidirectional_ramp_up', 'bidirectional_ramp_down']) > 0
        return {'nontrivial': nt, 'labels': labels}
    finally:
        shutil.rmtree(work, ignore_errors=True)


def parts():
    return [Part('interval', case, run, 250, 8000)]
