"""NEMDE case files: a JSON description -> the XML text AEMO's files have, laid out in a scratch cache folder.

Written with the standard library only; nothing of nempy (or of the parser nempy uses) takes part in writing.
"""
import datetime
import os
from xml.sax.saxutils import quoteattr

TRADE = {'energy': 'ENOF', 'raise_reg': 'R5RE', 'lower_reg': 'L5RE', 'raise_5min': 'R5MI', 'lower_5min': 'L5MI',
         'raise_60s': 'R60S', 'lower_60s': 'L60S', 'raise_6s': 'R6SE', 'lower_6s': 'L6SE', 'raise_1s': 'R1SE',
         'lower_1s': 'L1SE'}
AEMO = {'energy': 'ENERGY', 'raise_reg': 'RAISEREG', 'lower_reg': 'LOWERREG', 'raise_5min': 'RAISE5MIN',
        'lower_5min': 'LOWER5MIN', 'raise_60s': 'RAISE60SEC', 'lower_60s': 'LOWER60SEC', 'raise_6s': 'RAISE6SEC',
        'lower_6s': 'LOWER6SEC', 'raise_1s': 'RAISE1SEC', 'lower_1s': 'LOWER1SEC'}
ENERGY_TRADES = ['ENOF', 'LDOF', 'DROF', 'BDOF']
TRADE_TO_AEMO = {TRADE[k]: AEMO[k] for k in TRADE}
TRADE_TO_AEMO.update({t: 'ENERGY' for t in ENERGY_TRADES})
TRADE_TO_NEMPY = {TRADE[k]: k for k in TRADE}
TRADE_TO_NEMPY.update({t: 'energy' for t in ENERGY_TRADES})

PRICES = {'regional_demand': 'EnergyDeficitPrice', 'interocnnector': 'InterconnectorPrice',
          'generic_constraint': 'GenericConstraintPrice', 'ramp_rate': 'RampRatePrice',
          'unit_capacity': 'CapacityPrice', 'energy_offer': 'OfferPrice', 'fcas_profile': 'ASProfilePrice',
          'fcas_max_avail': 'ASMaxAvailPrice', 'fcas_enablement_min': 'ASEnablementMinPrice',
          'fcas_enablement_max': 'ASEnablementMaxPrice', 'fast_start': 'FastStartPrice',
          'mnsp_ramp_rate': 'MNSPRampRatePrice', 'msnp_offer': 'MNSPOfferPrice',
          'mnsp_capacity': 'MNSPCapacityPrice', 'uigf': 'UIGFSurplusPrice', 'voll': 'VoLL',
          'tiebreak': 'TieBreakPrice'}
VIOLATIONS = {'regional_demand': 'TotalAreaGenViolation', 'interocnnector': 'TotalInterconnectorViolation',
              'generic_constraint': 'TotalGenericViolation', 'ramp_rate': 'TotalRampRateViolation',
              'unit_capacity': 'TotalUnitMWCapacityViolation', 'energy_constraint': 'TotalEnergyConstrViolation',
              'energy_offer': 'TotalEnergyOfferViolation', 'fcas_profile': 'TotalASProfileViolation',
              'fast_start': 'TotalFastStartViolation', 'mnsp_ramp_rate': 'TotalMNSPRampRateViolation',
              'msnp_offer': 'TotalMNSPOfferViolation', 'mnsp_capacity': 'TotalMNSPCapacityViolation',
              'ugif': 'TotalUIGFViolation'}


def num(v):
    if isinstance(v, bool):
        return '1' if v else '0'
    if isinstance(v, float) and v == int(v) and abs(v) < 1e15:
        return str(int(v))
    return repr(v) if not isinstance(v, str) else v


def el(tag, attrs=None, children=()):
    a = ''.join(' %s=%s' % (k, quoteattr(num(v))) for k, v in (attrs or {}).items() if v is not None)
    kids = [c for c in children if c is not None]
    if not kids:
        return '<%s%s/>' % (tag, a)
    return '<%s%s>%s</%s>' % (tag, a, ''.join(kids), tag)


def coll(outer, kids):
    return el(outer, {}, kids)


def rhs_terms(terms):
    return coll('RHSTermCollection', [el('RHSTerm', t) for t in terms])


def to_xml(doc):
    traders = doc.get('traders', [])
    trader_x, period_x = [], []
    for t in traders:
        init = [el('TraderInitialCondition', {'InitialConditionID': k, 'Value': v}) for k, v in t['initial']]
        prices = [el('TradeTypePriceStructure', p) for p in t['prices']]
        attrs = {'TraderID': t['id'], 'TraderType': t['type']}
        attrs.update(t.get('fast') or {})
        trader_x.append(el('Trader', attrs, [
            coll('TraderInitialConditionCollection', init),
            el('TradePriceStructureCollection', {}, [el('TradePriceStructure', {}, [
                coll('TradeTypePriceStructureCollection', prices)])])]))
        if t.get('trades') is not None:
            pa = {'TraderID': t['id'], 'RegionID': t.get('region', 'NSW1')}
            if t.get('uigf') is not None:
                pa['UIGF'] = t['uigf']
            period_x.append(el('TraderPeriod', pa, [coll('TradeCollection', [el('Trade', x) for x in t['trades']])]))
    cons_x = []
    for c in doc.get('constraints', []):
        lhs = []
        for r in c.get('region', []):
            lhs.append(el('RegionFactor', {'Factor': r[2], 'TradeType': r[1], 'RegionID': r[0]}))
        for r in c.get('unit', []):
            lhs.append(el('TraderFactor', {'Factor': r[2], 'TradeType': r[1], 'TraderID': r[0]}))
        for r in c.get('inter', []):
            lhs.append(el('InterconnectorFactor', {'Factor': r[1], 'InterconnectorID': r[0]}))
        kids = [coll('LHSFactorCollection', lhs)]
        if c.get('terms'):
            kids.append(rhs_terms(c['terms']))
        cons_x.append(el('GenericConstraint', {'ConstraintID': c['id'], 'Type': c.get('type', 'LE'),
                                               'ViolationPrice': c.get('cost', 1000.0)}, kids))
    scada_x = []
    for typ, rows in (doc.get('scada') or {}).items():
        good = [el('ScadaValues', {'SpdID': r['id'], 'Value': r['value'], 'EMS_ID': r.get('ems')}) for r in rows
                if r.get('good', True)]
        bad = [el('ScadaValues', {'SpdID': r['id'], 'Value': r['value'], 'EMS_ID': r.get('ems')}) for r in rows
               if not r.get('good', True)]
        scada_x.append(el('ConstraintScadaData', {'SpdType': typ}, [
            coll('ScadaValuesCollection', good), coll('BadScadaValuesCollection', bad) if bad else None]))
    eq_x = [el('GenericEquation', {'EquationID': e['id']}, [rhs_terms(e['terms'])] if e['terms'] else [])
            for e in doc.get('equations', [])]
    ent_x = [el('EnteredValuePeriod', {'SpdID': k, 'Value': v}) for k, v in doc.get('entered', [])]
    inter_x = []
    for i in doc.get('inters', []):
        kids = []
        if i.get('offers') is not None:
            kids.append(coll('MNSPOfferCollection', [el('MNSPOffer', {'RegionID': r, 'MaxAvail': v})
                                                     for r, v in i['offers']]))
        inter_x.append(el('InterconnectorPeriod', {'InterconnectorID': i['id'], 'MNSP': '1' if i.get('mnsp') else '0',
                                                   'FromRegion': i['from'], 'ToRegion': i['to']}, kids))
    inputs = [
        el('Case', {PRICES[k]: v for k, v in doc.get('prices', {}).items()} or {'VoLL': 14500}),
        coll('TraderCollection', trader_x),
        coll('GenericConstraintCollection', cons_x),
        coll('GenericEquationCollection', eq_x),
        coll('ConstraintScadaDataCollection', scada_x),
        el('PeriodCollection', {}, [el('Period', {'PeriodID': doc.get('interval')}, [
            coll('TraderPeriodCollection', period_x), coll('InterconnectorPeriodCollection', inter_x),
            coll('EnteredValuePeriodCollection', ent_x)])])]
    runs = ['0', '1'] if doc.get('intervention') else ['0']
    if doc.get('reverse_runs'):
        runs = runs[::-1]
    out = []
    viol = doc.get('violations', {})
    for what, place in (('CaseSolution', 'case'), ('PeriodSolution', 'period')):
        for r in runs:
            a = {'Intervention': r}
            for k, v in viol.items():
                if v[0] == place:
                    a[VIOLATIONS[k]] = v[1] if r == '0' else v[1] + 7
            out.append(el(what, a))
    for r in doc.get('region_solutions', []):
        out.append(el('RegionSolution', r))
    for c in doc.get('solutions', []):
        out.append(el('ConstraintSolution', {'ConstraintID': c['id'], 'Intervention': c.get('intervention', '0'),
                                             'RHS': c['rhs']}))
    return '<?xml version="1.0"?>' + el('NEMSPDCaseFile', {}, [
        el('NemSpdInputs', {}, inputs), el('NemSpdOutputs', {}, out)])


def file_name(interval, ocd=False):
    """AEMO's naming: market day (04:05 to 04:00 next day) and the interval number within it."""
    t = datetime.datetime.strptime(interval, '%Y/%m/%d %H:%M:%S')
    shifted = t - datetime.timedelta(hours=4, minutes=5)
    n = (shifted.hour * 60 + shifted.minute) // 5 + 1
    return 'NEMSPDOutputs_%04d%02d%02d%03d00%s.loaded' % (shifted.year, shifted.month, shifted.day, n,
                                                         '_OCD' if ocd else '')


def write(doc, folder, interval, ocd=False):
    os.makedirs(folder, exist_ok=True)
    path = os.path.join(folder, file_name(interval, ocd))
    with open(path, 'w') as f:
        f.write(to_xml(doc))
    return path


class FakeWeb:
    """Stands in for the network at the lowest point `requests` offers: every fetch is recorded and answered by
    `serve(url) -> bytes | None` (None: page not found); nothing leaves the process."""

    def __init__(self, serve=None):
        self.calls = []
        self.serve = serve or (lambda url: None)

    def __enter__(self):
        import requests
        web = self

        def request(session, method, url, *a, **k):
            web.calls.append(url)
            body = web.serve(url)
            r = requests.models.Response()
            r.status_code = 404 if body is None else 200
            r._content = b'<html>not found</html>' if body is None else body
            r.url = url
            return r
        self.saved = requests.sessions.Session.request
        requests.sessions.Session.request = request
        return self

    def __exit__(self, *a):
        import requests
        requests.sessions.Session.request = self.saved


def manager(folder):
    from nempy.historical_inputs import xml_cache
    return xml_cache.XMLCacheManager(folder)
