"""C20: historical constraints, interconnectors, loss models and demand reach the market as published."""
import shutil
import tempfile

import hypothesis.strategies as st

import gen_nemde as gn
import histdb
import nemde
from core import Part, check
from checks.c18 import same

ID = 'C20'
RULE = ('hypothesis draws a NEMDE file (constraints with any mix of region, unit and interconnector terms, right hand sides, '
        'market link offers) and the MMS interconnector, loss model and demand tables, over a sequence of intervals loaded '
        'through one loader; every table of the constraint, interconnector and demand inputs is compared with what was '
        'published, and loss functions are evaluated at generated flows against AEMO\'s loss equation.  Non-trivial: '
        'a demand term in a loss equation, or a constraint with region terms, is present')
ASSUMPTIONS = ['each market link has an offer in the NEMDE file, as AEMO\'s files do',
               'demand is published for every region named in a loss equation']
SVC = dict(nemde.TRADE_TO_NEMPY)
val = st.sampled_from([0.0, 0.01, -0.02, 0.5, 1.0, 0.978, 1.0657, 3.5206e-05, -1.25])
mw = st.sampled_from([0.0, 100.0, 350.5, 478.0, 1234.25, 6000.0])


@st.composite
def inputs(draw):
    inters = []
    others = draw(st.permutations(['N-Q-MNSP1', 'V-SA', 'VIC1-NSW1', 'NSW1-QLD1']))[:draw(st.integers(1, 3))]
    for i in draw(st.permutations(['T-V-MNSP1'] + others)):
        d = draw(st.permutations(gn.REGIONS))
        mnsp = i == 'T-V-MNSP1' or (i == 'V-SA' and draw(st.booleans()))
        x = {'id': i, 'mnsp': mnsp, 'from': d[0], 'to': d[1], 'import': draw(mw), 'export': draw(mw),
             'const': draw(val), 'coef': draw(val), 'share': draw(st.sampled_from([0.5, 0.0, 1.0, 0.67])),
             'demand': [[r, draw(val)] for r in draw(st.lists(st.sampled_from(gn.REGIONS), max_size=3, unique=True))],
             'breaks': draw(st.lists(st.integers(-12, 12), min_size=2, max_size=5, unique=True).map(sorted)),
             'offers': None, 'links': []}
        if mnsp:
            x['links'] = [[d[0] + '_L', d[0], d[1], 1.0, draw(val), draw(val), draw(mw)],
                          [d[1] + '_L', d[1], d[0], -1.0, draw(val), draw(val), draw(mw)]]
            x['links'] = draw(st.permutations(x['links']))
            x['offers'] = [[r, draw(mw)] for r in draw(st.permutations(d[:2]))]
        inters.append(x)
    cons = draw(st.lists(st.sampled_from(gn.CONS), min_size=1, max_size=4, unique=True))
    return {'inters': inters, 'constraints': [draw(gn.constraint(x)) for x in cons],
            'rhs': draw(st.permutations([[x, draw(gn.mw)] for x in cons])),
            'prices': {k: draw(gn.pos) for k in nemde.PRICES}, 'ocd': draw(st.booleans()),
            'regions': [[r, draw(mw), draw(mw), draw(st.sampled_from([0.0, 20.5, -31.25]))] for r in
                        draw(st.permutations(gn.REGIONS))]}


@st.composite
def case(draw):
    n = draw(st.sampled_from([1, 1, 2]))
    times = draw(st.permutations(['2024/07/10 12:05:00', '2024/07/10 12:10:00', '2024/07/10 04:00:00']))[:n]
    return {'steps': [[t, draw(inputs())] for t in times], 'flows': draw(st.lists(
        st.sampled_from([-400.0, -37.5, 0.0, 1.0, 200.0, 950.0]), min_size=1, max_size=3, unique=True)),
        'again': draw(st.booleans())}


def tables(c):
    out = {k: [] for k in ('INTERCONNECTORCONSTRAINT', 'LOSSMODEL', 'LOSSFACTORMODEL', 'INTERCONNECTOR',
                           'MNSP_INTERCONNECTOR', 'DISPATCHREGIONSUM', 'DISPATCHINTERCONNECTORRES')}
    eff = '2020/07/01 00:00:00'
    for k, (t, inp) in enumerate(c['steps']):
        for r, d, s, f in inp['regions']:
            out['DISPATCHREGIONSUM'].append([t, r, d, f, s])
        for i in inp['inters']:
            out['DISPATCHINTERCONNECTORRES'].append([i['id'], t, 1.0, 0.1])
    # standing data is shared by the intervals: the first step's version of each interconnector
    seen = {}
    for t, inp in c['steps']:
        for i in inp['inters']:
            seen.setdefault(i['id'], i)
    for i in seen.values():
        out['INTERCONNECTOR'].append([i['id'], i['from'], i['to']])
        out['INTERCONNECTORCONSTRAINT'].append([i['id'], eff, 1, i['share'], i['const'],
                                                'MNSP' if i['mnsp'] else 'REGULATED', i['coef'], i['import'], i['export']])
        for j, b in enumerate(i['breaks']):
            out['LOSSMODEL'].append([i['id'], eff, 1, str(j + 1), b * 50.0])
        for r, v in i['demand']:
            out['LOSSFACTORMODEL'].append([i['id'], eff, 1, r, v])
        for l, a, b, g, fa, ta, cap in i['links']:
            out['MNSP_INTERCONNECTOR'].append([i['id'], l, eff, 1, a, b, fa, ta, g, cap])
    cols = {'INTERCONNECTORCONSTRAINT': ['INTERCONNECTORID', 'EFFECTIVEDATE', 'VERSIONNO', 'FROMREGIONLOSSSHARE',
                                         'LOSSCONSTANT', 'ICTYPE', 'LOSSFLOWCOEFFICIENT', 'IMPORTLIMIT', 'EXPORTLIMIT'],
            'LOSSMODEL': ['INTERCONNECTORID', 'EFFECTIVEDATE', 'VERSIONNO', 'LOSSSEGMENT', 'MWBREAKPOINT'],
            'LOSSFACTORMODEL': ['INTERCONNECTORID', 'EFFECTIVEDATE', 'VERSIONNO', 'REGIONID', 'DEMANDCOEFFICIENT'],
            'INTERCONNECTOR': ['INTERCONNECTORID', 'REGIONFROM', 'REGIONTO'],
            'MNSP_INTERCONNECTOR': ['INTERCONNECTORID', 'LINKID', 'EFFECTIVEDATE', 'VERSIONNO', 'FROMREGION', 'TOREGION',
                                    'FROM_REGION_TLF', 'TO_REGION_TLF', 'LHSFACTOR', 'MAXCAPACITY'],
            'DISPATCHREGIONSUM': ['SETTLEMENTDATE', 'REGIONID', 'TOTALDEMAND', 'DEMANDFORECAST', 'INITIALSUPPLY'],
            'DISPATCHINTERCONNECTORRES': ['INTERCONNECTORID', 'SETTLEMENTDATE', 'MWFLOW', 'MWLOSSES']}
    return {k: (cols[k], v) for k, v in out.items()}, seen


def run(c):
    from nempy.historical_inputs import constraints, demand, interconnectors
    work = tempfile.mkdtemp(prefix='c20_')
    labels = set()
    try:
        tabs, standing = tables(c)
        docs = {}
        for t, inp in c['steps']:
            live = [dict(standing[i['id']], offers=i['offers'] if i['mnsp'] == standing[i['id']]['mnsp'] else
                    standing[i['id']]['offers']) for i in inp['inters']]
            for x in live:     # offers name the link ends of the standing data
                if x['mnsp']:
                    x['offers'] = [[r, v] for r, (_, v) in zip([x['from'], x['to']], x['offers'])]
            docs[t] = (live, {
                'interval': t, 'traders': [{'id': 'U', 'type': 'GENERATOR', 'initial': [['InitialMW', 0.0]], 'fast': None,
                                            'prices': [{'TradeType': 'ENOF', 'PriceBand1': 1.0}],
                                            'trades': [{'TradeType': 'ENOF', 'MaxAvail': 1.0, 'BandAvail1': 1.0}]}],
                'constraints': inp['constraints'],
                'solutions': [{'id': a, 'rhs': b} for a, b in inp['rhs']], 'inters': live, 'region_solutions': [],
                'prices': inp['prices'], 'violations': {}})
        first = c['steps'][0]
        for t, inp in c['steps'][1:]:
            nemde.write(docs[t][1], work, t, inp['ocd'])
        ld = histdb.loader(work, first[0], docs[first[0]][1], tabs, first[1]['ocd'])
        order = c['steps'] + (c['steps'][::-1] if c['again'] else [])
        for k, (t, inp) in enumerate(order):
            if k:
                with nemde.FakeWeb():
                    ld.set_interval(t)
            live = docs[t][0]
            # demand
            same('demand', demand.DemandData(ld).get_operational_demand(), ['region'], ['demand'],
                 {(r[0],): (r[1],) for r in inp['regions']})
            # constraints
            cd = constraints.ConstraintData(ld)
            typ = {x['id']: {'LE': '<=', 'GE': '>=', 'EQ': '='}[x['type']] for x in inp['constraints']}
            rhs = dict(map(tuple, inp['rhs']))
            regional = {x['id'] for x in inp['constraints'] if x['region']}
            same('constraint rhs', cd.get_rhs_and_type(), ['set'], ['rhs', 'type'], {(s,): (rhs[s], typ[s]) for s in rhs})
            same('constraint rhs without regional', cd.get_rhs_and_type_excluding_regional_fcas_constraints(), ['set'],
                 ['rhs', 'type'], {(s,): (rhs[s], typ[s]) for s in rhs if s not in regional})
            # several trade types are energy to nempy: those rows share a key, so compare as multisets
            multiset('unit terms', cd.get_unit_lhs(), ['set', 'unit', 'service', 'coefficient'],
                     [(x['id'], u, SVC[s], f) for x in inp['constraints'] for u, s, f in x['unit']])
            multiset('region terms', cd.get_region_lhs(), ['set', 'region', 'service', 'coefficient'],
                     [(x['id'], u, SVC[s], f) for x in inp['constraints'] for u, s, f in x['region']])
            multiset('interconnector terms', cd.get_interconnector_lhs(), ['set', 'interconnector', 'coefficient'],
                     [(x['id'], u, f) for x in inp['constraints'] for u, f in x['inter']])
            multiset('FCAS requirements', cd.get_fcas_requirements(), ['set', 'service', 'region', 'type', 'volume'],
                     [(x['id'], SVC[s], u, typ[x['id']], rhs[x['id']]) for x in inp['constraints']
                      for u, s, f in x['region']])
            same('violation costs', cd.get_violation_costs(), ['set'], ['cost'],
                 {(x['id'],): (x['cost'],) for x in inp['constraints']})
            got = cd.get_constraint_violation_prices()
            for n, v in inp['prices'].items():
                check(abs(got[n] - v) < 1e-9, 'violation price %s is %r, should be %r', n, got[n], v)
            check(bool(cd.is_over_constrained_dispatch_rerun()) == inp['ocd'], 'over constrained flag is %r',
                  cd.is_over_constrained_dispatch_rerun())
            # interconnectors
            idata = interconnectors.InterconnectorData(ld)
            want, losses, breaks, share = {}, {}, [], {}
            dem = {r[0]: r[2] + r[3] for r in inp['regions']}
            for x in live:
                const = x['const'] + sum(v * dem[r] for r, v in x['demand'])
                sh = 1.0 if x['id'] == 'T-V-MNSP1' else x['share']
                if x['mnsp']:
                    offer = dict(map(tuple, x['offers']))
                    links = [(l, a, b, g, fa, ta, 0.0, offer[b]) for l, a, b, g, fa, ta, cap in x['links']]
                else:
                    links = [(x['id'], x['from'], x['to'], 1.0, 1.0, 1.0, -x['import'], x['export'])]
                for l, a, b, g, fa, ta, lo, hi in links:
                    key = (x['id'], l)
                    want[key] = (a, b, lo, hi, fa, ta, g)
                    losses[key] = (const, x['coef'], g)
                    share[key] = (sh,)
                    breaks += [(x['id'], l, (j + 1) * g, bp * 50.0 * g) for j, bp in enumerate(x['breaks'])]
            same('interconnectors', idata.get_interconnector_definitions(), ['interconnector', 'link'],
                 ['from_region', 'to_region', 'min', 'max', 'from_region_loss_factor', 'to_region_loss_factor',
                  'generic_constraint_factor'], want)
            lf, bp = idata.get_interconnector_loss_model()
            same('loss shares', lf, ['interconnector', 'link'], ['from_region_loss_share'], share)
            multiset('break points', bp, ['interconnector', 'link', 'loss_segment', 'break_point'], breaks)
            for row in lf[['interconnector', 'link', 'loss_function']].itertuples(index=False):
                const, coef, g = losses[(row[0], row[1])]
                for f in c['flows']:
                    e = (const - 1) * f * g + coef / 2 * (f * g) ** 2
                    check(abs(row[2](f) - e) <= 1e-7 * max(1, abs(e)), 'losses of %s %s at %s are %r, should be %r', row[0],
                          row[1], f, row[2](f), e)
            if any(x['mnsp'] for x in live):
                labels.add('market link')
            if any(x['demand'] for x in live):
                labels.add('demand term')
            if regional:
                labels.add('regional constraint')
        if len(c['steps']) > 1:
            labels.add('several intervals')
        return {'nontrivial': bool(labels & {'demand term', 'regional constraint'}), 'labels': sorted(labels)}
    finally:
        shutil.rmtree(work, ignore_errors=True)


def multiset(what, df, cols, want):
    for x in cols:
        check(x in df.columns, '%s: column %s missing from %r', what, x, list(df.columns))

    def n(v):
        return v if isinstance(v, str) else round(float(v), 7)
    got = sorted((tuple(n(v) for v in r) for r in df[cols].itertuples(index=False)), key=repr)
    exp = sorted((tuple(n(v) for v in r) for r in want), key=repr)
    check(got == exp, '%s: missing %r, unexpected %r', what, [e for e in exp if e not in got][:3],
          [g for g in got if g not in exp][:3] or (len(got), len(exp)))


def parts():
    return [Part('tables', case, run, 800, 40000)]
