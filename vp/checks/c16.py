"""C16: NEMDE case files are found, fetched and reported faithfully."""
import datetime
import io
import math
import os
import shutil
import tempfile
import zipfile

import hypothesis.strategies as st

import gen_nemde as gn
import nemde
from core import Part, Violation, check

ID = 'C16'
RULE = ('hypothesis draws NEMDE case files (1-4 units of every kind, bids in any order and with either attribute set, '
        'fast start data, constraints with any mix of terms, market links, intervention runs, over constrained '
        're-runs), writes them to a scratch cache with names computed independently, loads intervals in a drawn order '
        'and compares every table with what was written; and draws download histories against a stand-in web.  '
        'Non-trivial: two or more intervals loaded, or an intervention / bidirectional / over constrained case, or a '
        'fetch')
ASSUMPTIONS = ['intervals of one file are well formed XML in the layout AEMO publishes; a file carries either the normal '
               'or the over constrained name, not both']

SERVICE_PRICE = {'EnergyPrice': 'ENERGY', 'R5Price': 'RAISE5MIN', 'L5Price': 'LOWER5MIN', 'R60Price': 'RAISE60SEC',
                 'L60Price': 'LOWER60SEC', 'R6Price': 'RAISE6SEC', 'L6Price': 'LOWER6SEC', 'R1Price': 'RAISE1SEC',
                 'L1Price': 'LOWER1SEC'}
NAN = float('nan')


def rows(df, cols):
    check(all(c in df.columns for c in cols), 'columns %r missing from %r', cols, list(df.columns))
    out = []
    for r in df[cols].itertuples(index=False):
        out.append(tuple(r))
    return out


def norm(v):
    if v is None:
        return ('none',)
    if isinstance(v, str):
        return ('s', v)
    f = float(v)
    return ('none',) if math.isnan(f) else ('n', f)


def same(name, df, cols, want):
    got = sorted([tuple(norm(v) for v in r) for r in rows(df, cols)])
    exp = sorted([tuple(norm(v) for v in r) for r in want])
    if got != exp:
        extra = [r for r in got if r not in exp][:2]
        lost = [r for r in exp if r not in got][:2]
        raise Violation('%s: %d rows, expected %d; unexpected %r; missing %r' % (name, len(got), len(exp), extra, lost))
    for c in cols:
        if any(isinstance(v, (int, float)) and not isinstance(v, bool) for v in (r[cols.index(c)] for r in want)):
            for v in df[c]:
                check(v is None or not isinstance(v, str), '%s: column %s holds text %r instead of a number', name, c, v)


def expect(m, doc, ocd=False):
    """Every table against the document."""
    iv = doc['intervention']
    T = doc['traders']

    def init(t, key):
        return dict(t['initial']).get(key, NAN)
    same('initial conditions', m.get_unit_initial_conditions(),
         ['DUID', 'INITIALMW', 'RAMPUPRATE', 'RAMPDOWNRATE', 'AGCSTATUS'],
         [(t['id'], init(t, 'WhatIfInitialMW' if iv else 'InitialMW'), init(t, 'SCADARampUpRate'),
           init(t, 'SCADARampDnRate'), init(t, 'AGCStatus')) for t in T])
    fs = []
    for t in T:
        f = t['fast']
        if f:
            fs.append((t['id'], f['MinLoadingMW'], f.get('WhatIfCurrentMode', f['CurrentMode']),
                       f.get('WhatIfCurrentModeTime', f['CurrentModeTime']), f['T1'], f['T2'], f['T3'], f['T4']))
    same('fast start parameters', m.get_unit_fast_start_parameters(),
         ['DUID', 'MinLoadingMW', 'CurrentMode', 'CurrentModeTime', 'T1', 'T2', 'T3', 'T4'], fs)
    vcols = ['MAXAVAIL', 'ENABLEMENTMIN', 'ENABLEMENTMAX', 'LOWBREAKPOINT', 'HIGHBREAKPOINT'] + \
        ['BANDAVAIL%d' % i for i in range(1, 11)] + ['RAMPDOWNRATE', 'RAMPUPRATE']
    vx = ['MaxAvail', 'EnablementMin', 'EnablementMax', 'LowBreakpoint', 'HighBreakpoint'] + \
        ['BandAvail%d' % i for i in range(1, 11)] + ['RampDnRate', 'RampUpRate']
    same('volume bids', m.get_unit_volume_bids(), ['DUID', 'BIDTYPE', 'DIRECTION'] + vcols,
         [(t['id'], nemde.TRADE_TO_AEMO[x['TradeType']], {'GEN': 'GENERATOR', 'LOAD': 'LOAD', None: None}[x['Direction']])
          + tuple(x.get(k, NAN) for k in vx) for t in T for x in t['trades']])
    side = {'GEN': 'GENERATOR', 'LOAD': 'LOAD'}
    same('price bids', m.get_unit_price_bids(), ['DUID', 'BIDTYPE', 'DIRECTION'] + ['PRICEBAND%d' % i for i in range(1, 11)],
         [(t['id'], nemde.TRADE_TO_AEMO[x['TradeType']],
           side[x['Direction']] if x['Direction'] else 'LOAD' if t['type'] == 'LOAD' else 'GENERATOR')
          + tuple(x['PriceBand%d' % i] for i in range(1, 11)) for t in T for x in t['prices']])
    same('UIGF', m.get_UIGF_values(), ['DUID', 'UIGF'], [(t['id'], t['uigf']) for t in T if t['uigf'] is not None])
    C = doc['constraints']
    same('constraint rhs', m.get_constraint_rhs(), ['set', 'rhs'],
         [(s['id'], s['rhs']) for s in doc['solutions'] if s['intervention'] == '0'])
    same('constraint type', m.get_constraint_type(), ['set', 'type', 'cost'], [(c['id'], c['type'], c['cost']) for c in C])
    same('region terms', m.get_constraint_region_lhs(), ['set', 'region', 'service', 'coefficient'],
         [(c['id'],) + tuple(r) for c in C for r in c['region']])
    same('unit terms', m.get_constraint_unit_lhs(), ['set', 'unit', 'service', 'coefficient'],
         [(c['id'],) + tuple(r) for c in C for r in c['unit']])
    same('interconnector terms', m.get_constraint_interconnector_lhs(), ['set', 'interconnector', 'coefficient'],
         [(c['id'],) + tuple(r) for c in C for r in c['inter']])
    same('market link availability', m.get_market_interconnector_link_bid_availability(),
         ['interconnector', 'to_region', 'availability'],
         [(i['id'], r, v) for i in doc['inters'] if i['mnsp'] for r, v in i['offers']])
    pr = m.get_constraint_violation_prices()
    check({k: float(v) for k, v in pr.items()} == {k: float(v) for k, v in doc['prices'].items()},
          'violation prices %r, the file says %r', pr, doc['prices'])
    vi = m.get_violations()
    check({k: float(v) for k, v in vi.items()} == {k: float(v[1]) for k, v in doc['violations'].items()},
          'violations %r, the file says %r', vi, doc['violations'])
    if hasattr(m, 'is_intervention_period'):
        check(bool(m.is_intervention_period()) == iv, 'is_intervention_period is %r', m.is_intervention_period())
        same('service prices', m.get_service_prices(), ['region', 'service', 'price'],
             [(r['RegionID'], SERVICE_PRICE[k], r[k]) for r in doc['region_solutions'] if r['Intervention'] == '0'
              for k in SERVICE_PRICE if k in r])
    else:
        check(bool(m.is_over_constrained_dispatch_rerun()) == ocd, 'is_over_constrained_dispatch_rerun is %r for a %s file',
              m.is_over_constrained_dispatch_rerun(), 're-run' if ocd else 'normal')


@st.composite
def case(draw):
    ivs = draw(st.lists(gn.interval(), min_size=1, max_size=3, unique=True))
    docs = [{'at': i, 'ocd': draw(st.integers(0, 3)) == 0, 'doc': draw(gn.document())} for i in ivs]
    order = draw(st.lists(st.integers(0, len(docs) - 1), min_size=1, max_size=4))
    return {'docs': docs, 'order': order}


def run(case):
    from nempy.historical_inputs import loaders
    root = tempfile.mkdtemp(prefix='c16_')
    try:
        folder = os.path.join(root, 'cache')
        for d in case['docs']:
            nemde.write(d['doc'], folder, d['at'], d['ocd'])
        with nemde.FakeWeb() as web:
            m = nemde.manager(folder)
            loader = loaders.RawInputsLoader(m, None)
            for k, n in enumerate(case['order']):
                d = case['docs'][n]
                if k % 2:
                    loader.set_interval(d['at'])
                else:
                    m.load_interval(d['at'])
                check(m.get_file_name() == nemde.file_name(d['at'], d['ocd']), 'file for %s is %s, expected %s', d['at'],
                      m.get_file_name(), nemde.file_name(d['at'], d['ocd']))
                check(str(m.get_file_path()) == os.path.join(folder, nemde.file_name(d['at'], d['ocd'])),
                      'file path %s', m.get_file_path())
                check(m.interval_inputs_in_cache(), 'loaded interval reported as not cached')
                expect(m, d['doc'])
                expect(m, d['doc'])           # reading does not change what is read
                expect(loader, d['doc'], d['ocd'])
            check(not web.calls, 'a cached interval was fetched from %r', web.calls)
    finally:
        shutil.rmtree(root, ignore_errors=True)
    docs = [case['docs'][n] for n in case['order']]
    lab = set()
    if any(d['doc']['intervention'] for d in docs):
        lab.add('intervention')
    if any(d['ocd'] for d in docs):
        lab.add('ocd')
    if any(t['type'] == 'BIDIRECTIONAL' for d in docs for t in d['doc']['traders']):
        lab.add('bidirectional')
    if any(t['fast'] for d in docs for t in d['doc']['traders']):
        lab.add('fast-start')
    if len(set(case['order'])) > 1:
        lab.add('several-intervals')
    return {'nontrivial': len(lab) > 0, 'labels': sorted(lab)}


# ----------------------------------------------------------------------------------------------------------- fetching

def tiny(interval, mark):
    return nemde.to_xml({'interval': interval, 'traders': [
        {'id': 'U', 'type': 'GENERATOR', 'trades': [{'TradeType': 'ENOF', 'MaxAvail': mark}], 'region': 'NSW1',
         'initial': [['InitialMW', mark], ['AGCStatus', 1]], 'prices': [{'TradeType': 'ENOF'}]}]})


def market_day(t):
    return (t - datetime.timedelta(hours=4, minutes=5)).date()


def mark_of(t):
    return float((t - datetime.datetime(2000, 1, 1)).total_seconds() // 300)


class Archive:
    """The published archive: one zip per market day holding its 288 intervals (only the ones asked for are built)."""

    def __init__(self, days, numbers, ocd, flaky):
        self.days, self.numbers, self.ocd, self.flaky = days, numbers, ocd, set(flaky)

    def serve(self, url):
        name = url.rsplit('/', 1)[-1]
        day = None
        for d in self.days:
            if d.strftime('%Y%m%d') in name:
                day = d
        if day is None or name != 'NemSpdOutputs_%s_loaded.zip' % day.strftime('%Y%m%d'):
            return None
        if '/%04d/' % day.year not in url or 'NEMDE_%04d_%02d/' % (day.year, day.month) not in url:
            return None
        if day in self.flaky:
            self.flaky.discard(day)
            return b'temporarily unavailable'
        buf = io.BytesIO()
        with zipfile.ZipFile(buf, 'w') as z:
            for n in self.numbers:
                t = datetime.datetime(day.year, day.month, day.day, 4, 5) + datetime.timedelta(minutes=5 * (n - 1))
                s = t.strftime('%Y/%m/%d %H:%M:%S')
                z.writestr(nemde.file_name(s, n in self.ocd), tiny(s, mark_of(t)))
        return buf.getvalue()


@st.composite
def fetch_case(draw):
    start = draw(st.sampled_from(['2019-01-01', '2020-02-28', '2018-12-30', '2019-04-29', '2021-12-31']))
    nums = draw(st.lists(st.one_of(st.integers(1, 288), st.sampled_from([1, 2, 240, 288])), min_size=1, max_size=3,
                         unique=True))
    ops = []
    for _ in range(draw(st.integers(1, 4))):
        kind = draw(st.sampled_from(['load', 'load', 'missing-day', 'missing-number', 'populate']))
        ops.append([kind, draw(st.integers(0, 3)), draw(st.integers(0, 2)), draw(st.integers(0, 2))])
    return {'start': start, 'numbers': nums, 'ocd': draw(st.lists(st.sampled_from(nums), max_size=1)),
            'flaky': draw(st.lists(st.integers(0, 5), max_size=1)), 'ops': ops}


def run_fetch(case):
    import time
    from nempy.historical_inputs import xml_cache
    d0 = datetime.date.fromisoformat(case['start'])
    days = [d0 + datetime.timedelta(days=k) for k in range(-3, 8)]
    nums = sorted(set(case['numbers'] + [240]))
    arch = Archive(days, nums, case['ocd'], [d0 + datetime.timedelta(days=k) for k in case['flaky']])
    root = tempfile.mkdtemp(prefix='c16f_')
    saved = time.sleep, getattr(xml_cache, 'sleep', None)
    try:
        time.sleep = lambda s: None
        if saved[1] is not None:
            xml_cache.sleep = lambda s: None
        folder = os.path.join(root, 'cache')
        labels = set()
        have = set()
        with nemde.FakeWeb(arch.serve) as web:
            m = nemde.manager(folder)
            for kind, a, b, c in case['ops']:
                day = d0 + datetime.timedelta(days=a)
                if kind in ('load', 'missing-number'):
                    n = nums[b % len(nums)]
                    if kind == 'missing-number':
                        n = next(i for i in range(100 + 7 * b, 289) if i not in nums)
                    t = datetime.datetime(day.year, day.month, day.day, 4, 5) + datetime.timedelta(minutes=5 * (n - 1))
                    s = t.strftime('%Y/%m/%d %H:%M:%S')
                    before = len(web.calls)
                    if kind == 'load':
                        m.load_interval(s)
                        got = list(m.get_unit_initial_conditions()['INITIALMW'])
                        check(got == [mark_of(t)], 'interval %s: data of another interval was loaded (%r, expected %r)', s,
                              got, mark_of(t))
                        ocd = loaders_ocd(m)
                        check(ocd == (n in case['ocd']), 'interval %s: over constrained re-run flag %r', s, ocd)
                        if day in have:
                            check(len(web.calls) == before, 'interval %s was in the cache, yet %r was fetched', s,
                                  web.calls[before:])
                        have.add(day)
                        labels.add('load')
                    else:
                        labels.add('missing-number')
                        expect_missing(m, xml_cache, s)
                        check(not m.interval_inputs_in_cache(), 'a missing interval is reported as cached')
                        check(m.get_file_name() == nemde.file_name(s), 'a missing interval is named %s', m.get_file_name())
                        have.add(day)
                elif kind == 'missing-day':
                    s = '2017/0%d/1%d 12:00:00' % (a + 1, b)
                    labels.add('missing-day')
                    expect_missing(m, xml_cache, s)
                else:
                    end = day + datetime.timedelta(days=c)
                    m.populate_by_day(start_year=day.year, start_month=day.month, start_day=day.day, end_year=end.year,
                                      end_month=end.month, end_day=end.day, verbose=False)
                    t = datetime.datetime(day.year, day.month, day.day)
                    stop = datetime.datetime(end.year, end.month, end.day)
                    while t <= stop:
                        n = ((t - datetime.timedelta(hours=4, minutes=5)).hour * 60
                             + (t - datetime.timedelta(hours=4, minutes=5)).minute) // 5 + 1
                        have.add(market_day(t))
                        if n in nums:
                            before = len(web.calls)
                            m.load_interval(t.strftime('%Y/%m/%d %H:%M:%S'))
                            check(len(web.calls) == before, 'populating %s to %s left interval %s to be fetched later', day,
                                  end, t)
                        t += datetime.timedelta(minutes=5)
                    labels.add('populate')
        outside = [f for f in os.listdir(root) if f != 'cache']
        check(not outside, 'files written outside the cache folder: %r', outside)
    finally:
        time.sleep = saved[0]
        if saved[1] is not None:
            xml_cache.sleep = saved[1]
        shutil.rmtree(root, ignore_errors=True)
    return {'nontrivial': True, 'labels': sorted(labels)}


def loaders_ocd(m):
    from nempy.historical_inputs import loaders
    return bool(loaders.RawInputsLoader(m, None).is_over_constrained_dispatch_rerun())


def expect_missing(m, xml_cache, s):
    try:
        m.load_interval(s)
    except xml_cache.MissingDataError:
        return
    except Exception as e:
        raise Violation('interval %s cannot be obtained: %s was raised instead of MissingDataError' % (s, type(e).__name__))
    raise Violation('interval %s does not exist, yet it loaded' % s)


@st.composite
def months_case(draw):
    return {'start': draw(st.sampled_from([[2019, 1], [2019, 12], [2020, 2], [2021, 11], [2018, 10]])),
            'more': draw(st.sampled_from([0, 0, 1, 2])),
            'look': draw(st.lists(st.integers(0, 91), min_size=2, max_size=6, unique=True))}


def run_months(case):
    import time
    from nempy.historical_inputs import xml_cache
    (y, mth), more = case['start'], case['more']
    ey, em = y + (mth - 1 + more) // 12, (mth - 1 + more) % 12 + 1
    first = datetime.date(y, mth, 1)
    after = datetime.date(ey + em // 12, em % 12 + 1, 1)
    one = datetime.timedelta(days=1)
    need = [first + one * k for k in range(-1, (after - first).days)]     # trading days that overlap the months
    root = tempfile.mkdtemp(prefix='c16m_')
    saved = time.sleep, getattr(xml_cache, 'sleep', None)
    try:
        time.sleep = lambda s: None
        if saved[1] is not None:
            xml_cache.sleep = lambda s: None
        arch = Archive([need[0] + one * k for k in range(-2, len(need) + 2)], [1, 240, 288], [], [])
        with nemde.FakeWeb(arch.serve) as web:
            m = nemde.manager(os.path.join(root, 'cache'))
            m.populate(start_year=y, start_month=mth, end_year=ey, end_month=em, verbose=False)
            check(len(set(web.calls)) == len(web.calls), 'populating fetches a file more than once')
            n = len(web.calls)
            for k in sorted({0, 1, len(need) - 1, len(need) - 2} | {k % len(need) for k in case['look']}):
                for hours in (4, 28):
                    t = datetime.datetime.combine(need[k], datetime.time()) + datetime.timedelta(hours=hours, minutes=5)
                    if hours == 28:
                        t -= datetime.timedelta(minutes=5)
                    m.load_interval(t.strftime('%Y/%m/%d %H:%M:%S'))
                    got = list(m.get_unit_initial_conditions()['INITIALMW'])
                    check(got == [mark_of(t)], 'interval %s: data of another interval was loaded', t)
                    check(len(web.calls) == n, 'populating %s-%s to %s-%s left interval %s to be fetched later', y, mth, ey,
                          em, t)
    finally:
        time.sleep = saved[0]
        if saved[1] is not None:
            xml_cache.sleep = saved[1]
        shutil.rmtree(root, ignore_errors=True)
    return {'nontrivial': True, 'labels': ['%d months' % (more + 1)] + ['to december'] * (em == 12)}


# ----------------------------------------------------------------------------------------------- searching violations

@st.composite
def search_case(draw):
    y, mth = draw(st.sampled_from([(2019, 1), (2019, 12), (2020, 2), (2021, 11)]))
    hits = draw(st.lists(st.integers(0, 14), min_size=1, max_size=5, unique=True))
    return {'y': y, 'm': mth, 'hits': {str(h): draw(st.lists(st.sampled_from(sorted(nemde.VIOLATIONS)), min_size=1, max_size=3,
                                                          unique=True)) for h in hits},
            'holes': [h for h in draw(st.lists(st.integers(0, 14), max_size=3, unique=True)) if h not in hits],
            'limit': draw(st.integers(1, len(hits)))}


def run_search(case):
    import time
    from nempy.historical_inputs import xml_cache
    root = tempfile.mkdtemp(prefix='c16s_')
    saved = time.sleep, getattr(xml_cache, 'sleep', None)
    try:
        time.sleep = lambda s: None
        if saved[1] is not None:
            xml_cache.sleep = lambda s: None
        folder = os.path.join(root, 'cache')
        start = datetime.datetime(case['y'], case['m'], 1)
        want = {}
        for k in range(15):
            s = (start + datetime.timedelta(minutes=5 * k)).strftime('%Y/%m/%d %H:%M:%S')
            if k in case['holes']:
                continue
            hit = case['hits'].get(str(k), [])
            nemde.write({'violations': {v: ['case' if i % 2 else 'period', 3.5 if v in hit else 0.0]
                                        for i, v in enumerate(sorted(nemde.VIOLATIONS))}}, folder, s)
            if hit and len(want) < case['limit']:
                want[s] = sorted(hit)
        with nemde.FakeWeb():
            m = nemde.manager(folder)
            got = m.find_intervals_with_violations(limit=case['limit'], start_year=case['y'], start_month=case['m'],
                                                   end_year=case['y'], end_month=case['m'])
        got = {k: sorted(v) for k, v in got.items()}
        check(got == want, 'intervals with violations %r, the files have %r', got, want)
    finally:
        time.sleep = saved[0]
        if saved[1] is not None:
            xml_cache.sleep = saved[1]
        shutil.rmtree(root, ignore_errors=True)
    return {'nontrivial': True, 'labels': ['holes'] if case['holes'] else []}


def parts():
    return [Part('tables', case, run, 1600, 30000), Part('fetch', fetch_case, run_fetch, 1000, 20000),
            Part('search', search_case, run_search, 160, 3000),
            Part('months', months_case, run_months, 60, 600)]
