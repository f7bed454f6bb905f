"""C17: the MMS database returns, for an interval, exactly the records that applied to it."""
import datetime as dt
import io
import math
import os
import re
import shutil
import sqlite3
import tempfile
import urllib.parse
import zipfile

import hypothesis.strategies as st

import nemde
from core import Part, check

ID = 'C17'
RULE = ('hypothesis draws the monthly archive AEMO would publish (every table nempy keeps, 2-4 months, year ends and the '
        '2024-08 change of naming included, shuffled and absent columns, intervention and repeated rows, several versions '
        'and effective dates per record, missing months) and a history of populate / create / add / set / reopen calls; '
        'after the history every table is queried at several intervals and compared, row for row, with an in-memory model '
        'of the documented selection rules.  Non-trivial: some query has to choose between records that apply and '
        'records that do not')
ASSUMPTIONS = ['a stand-in for the network serves the archive; nothing is fetched',
               'unit detail records are contiguous in time (the documentation contradicts itself on retired units)',
               'records are loaded with the set/add/populate methods, not written into the tables by hand']

FCAS = ['LOWER5MIN', 'LOWER60SEC', 'LOWER6SEC', 'LOWER1SEC', 'RAISE5MIN', 'RAISE60SEC', 'RAISE6SEC', 'RAISE1SEC']
SPEC = {
    'DISPATCHREGIONSUM': ('settle', ['REGIONID'], ['TOTALDEMAND', 'DEMANDFORECAST', 'INITIALSUPPLY']),
    'DISPATCHLOAD': ('settle', ['DUID'], [
        'DISPATCHMODE', 'AGCSTATUS', 'INITIALMW', 'TOTALCLEARED', 'RAMPDOWNRATE', 'RAMPUPRATE', 'AVAILABILITY',
        'RAISEREGENABLEMENTMAX', 'RAISEREGENABLEMENTMIN', 'LOWERREGENABLEMENTMAX', 'LOWERREGENABLEMENTMIN',
        'SEMIDISPATCHCAP', 'LOWERREG', 'RAISEREG', 'RAISEREGAVAILABILITY', 'RAISEREGACTUALAVAILABILITY',
        'LOWERREGACTUALAVAILABILITY'] + FCAS + [s + 'ACTUALAVAILABILITY' for s in FCAS]),
    'DISPATCHPRICE': ('settle', ['REGIONID'], ['ROP', 'RAISEREGROP', 'LOWERREGROP'] + [s + 'ROP' for s in FCAS]),
    'DISPATCHCONSTRAINT': ('settle', ['CONSTRAINTID'], ['RHS', 'LHS', 'VIOLATIONDEGREE', 'MARGINALVALUE']),
    'DISPATCHINTERCONNECTORRES': ('settle', ['INTERCONNECTORID'], ['MWFLOW', 'MWLOSSES']),
    'DUDETAILSUMMARY': ('start', ['DUID'], ['TRANSMISSIONLOSSFACTOR', 'DISTRIBUTIONLOSSFACTOR', 'SECONDARY_TLF']),
    'DUDETAIL': ('version', ['DUID'], ['REGISTEREDCAPACITY']),
    'MNSP_INTERCONNECTOR': ('version', ['INTERCONNECTORID', 'LINKID'],
                            ['FROM_REGION_TLF', 'TO_REGION_TLF', 'LHSFACTOR', 'MAXCAPACITY']),
    'INTERCONNECTORCONSTRAINT': ('interconnector', ['INTERCONNECTORID'],
                                 ['FROMREGIONLOSSSHARE', 'LOSSCONSTANT', 'LOSSFLOWCOEFFICIENT', 'IMPORTLIMIT',
                                  'EXPORTLIMIT']),
    'LOSSMODEL': ('interconnector', ['INTERCONNECTORID'], ['MWBREAKPOINT']),
    'LOSSFACTORMODEL': ('interconnector', ['INTERCONNECTORID'], ['DEMANDCOEFFICIENT']),
    'GENCONDATA': ('constraint', ['GENCONID'], ['GENERICCONSTRAINTWEIGHT']),
    'SPDREGIONCONSTRAINT': ('constraint', ['GENCONID', 'REGIONID', 'BIDTYPE'], ['FACTOR']),
    'SPDCONNECTIONPOINTCONSTRAINT': ('constraint', ['GENCONID', 'CONNECTIONPOINTID', 'BIDTYPE'], ['FACTOR']),
    'SPDINTERCONNECTORCONSTRAINT': ('constraint', ['GENCONID', 'INTERCONNECTORID'], ['FACTOR']),
    'INTERCONNECTOR': ('all', ['INTERCONNECTORID'], []),
}
TEXT = {'DUDETAILSUMMARY': ['DISPATCHTYPE', 'CONNECTIONPOINTID', 'REGIONID', 'SCHEDULE_TYPE'],
        'MNSP_INTERCONNECTOR': ['FROMREGION', 'TOREGION'], 'INTERCONNECTOR': ['REGIONFROM', 'REGIONTO'],
        'INTERCONNECTORCONSTRAINT': ['ICTYPE'], 'GENCONDATA': ['CONSTRAINTTYPE']}
EXTRA_KEY = {'LOSSMODEL': 'LOSSSEGMENT', 'LOSSFACTORMODEL': 'REGIONID'}
OPTIONAL = {'DISPATCHLOAD': ['LOWER1SEC', 'RAISE1SEC', 'RAISE1SECACTUALAVAILABILITY', 'LOWER1SECACTUALAVAILABILITY'],
            'DISPATCHPRICE': ['RAISE1SECROP', 'LOWER1SECROP'], 'DUDETAILSUMMARY': ['SECONDARY_TLF']}
MULTI = [t for t, s in SPEC.items() if s[0] == 'settle']
HIST = [t for t, s in SPEC.items() if s[0] == 'constraint']
SINGLE = [t for t in SPEC if t not in MULTI and t not in HIST]


def nxt(ym, k=1):
    n = ym[0] * 12 + ym[1] - 1 + k
    return n // 12, n % 12 + 1


# the pool of ids is small so that records collide
NAMES = {'REGIONID': ['NSW1', 'VIC1'], 'DUID': ['U1', 'U2'], 'CONSTRAINTID': ['CA', 'CB'], 'GENCONID': ['CA', 'CB'],
         'INTERCONNECTORID': ['I1', 'I2'], 'LINKID': ['LA', 'LB'], 'BIDTYPE': ['ENERGY', 'RAISE6SEC'],
         'CONNECTIONPOINTID': ['N1', 'N2'], 'LOSSSEGMENT': ['1', '2', '3']}


@st.composite
def archive(draw, months):
    ym0 = months[0]
    times = draw(st.lists(st.integers(0, 11), min_size=2, max_size=4, unique=True))
    # candidate intervals: first and last of each month, and some in between
    ints = []
    for (y, m) in months:
        y2, m2 = nxt((y, m))
        ints.append(['%04d/%02d/01 00:05:00' % (y, m), '%04d/%02d/15 12:%02d:00' % (y, m, times[0] * 5),
                     '%04d/%02d/01 00:00:00' % (y2, m2)])
    dates = ['%04d/%02d/01 00:00:00' % nxt(ym0, k) for k in (-14, -1, 0, 1)] + [
        '%04d/%02d/15 12:%02d:00' % (ym0[0], ym0[1], times[1] * 5), '%04d/%02d/15 00:00:00' % nxt(ym0, len(months) - 1)]
    dates = sorted(set(dates))
    seed = st.integers(0, 9999)
    files = {}
    genver = {}
    for t in MULTI:
        for k, ym in enumerate(months):
            rows = []
            for when in ints[k]:
                if t == 'DISPATCHCONSTRAINT':
                    keys = [[c] for c in draw(st.sampled_from([['CA'], ['CA', 'CB'], ['CA', 'CB'], ['CB'], []]))]
                elif t == 'DISPATCHINTERCONNECTORRES':
                    keys = [[c] for c in draw(st.sampled_from([['I1'], ['I1', 'I2'], ['I2', 'I1'], ['I2']]))]
                else:
                    keys = [[c] for c in draw(st.sampled_from([NAMES[SPEC[t][1][0]], NAMES[SPEC[t][1][0]][::-1],
                                                              NAMES[SPEC[t][1][0]][:1]]))]
                for key in keys:
                    r = {'k': key, 't': when, 's': draw(seed)}
                    if t == 'DISPATCHCONSTRAINT':
                        r['e'] = draw(st.sampled_from(dates))
                        r['v'] = draw(st.sampled_from([1, 2, 9, 10]))
                        genver.setdefault(key[0], []).append((r['e'], r['v']))
                    if draw(st.integers(0, 9)) == 0:
                        first = draw(st.booleans())
                        iv = dict(r, s=draw(seed), i=1)
                        rows.extend([iv, r] if first else [r, iv])
                    else:
                        rows.append(r)
                    if draw(st.integers(0, 19)) == 0:
                        rows.append(dict(r))
            order = draw(st.sampled_from(['as', 'reversed']))
            files[t + ' %d %d' % ym] = {'rows': rows if order == 'as' else rows[::-1],
                                        'drop': draw(st.booleans()) and t in OPTIONAL, 'shuffle': draw(st.integers(0, 3))}
    for t in SINGLE + HIST:
        kind = SPEC[t][0]
        pools = [NAMES[c] for c in SPEC[t][1]]
        rows = []
        if kind == 'all':
            rows = [{'k': [c], 's': draw(seed)} for c in draw(st.sampled_from([['I1'], ['I1', 'I2'], ['I2', 'I1']]))]
        elif kind == 'start':
            for u in NAMES['DUID']:
                starts = sorted(draw(st.lists(st.sampled_from(dates), min_size=0, max_size=3, unique=True)))
                for a, b in zip(starts, starts[1:] + ['2999/12/31 00:00:00']):
                    rows.append({'k': [u], 'a': a, 'b': b, 's': draw(seed)})
            rows = draw(st.permutations(rows))
        else:
            if kind == 'constraint':
                vers = lambda key: st.sampled_from(genver.get(key[0], []) * 2 + [(d, v) for d in dates for v in (1, 2, 10)])
            else:
                vers = lambda key: st.tuples(st.sampled_from(dates), st.sampled_from([1, 2, 9, 10]))
            n = draw(st.integers(0, 6 if t != 'GENCONDATA' else 5))
            seen = set()
            for _ in range(n):
                key = [draw(st.sampled_from(p)) for p in pools]
                e, v = draw(vers(key))
                subs = [None]
                if t in EXTRA_KEY:
                    subs = NAMES[EXTRA_KEY[t]][:draw(st.integers(1, len(NAMES[EXTRA_KEY[t]])))]
                for sub in subs:
                    ident = (tuple(key), e, v, sub)
                    if ident in seen:
                        continue
                    seen.add(ident)
                    rows.append({'k': key, 'e': e, 'v': v, 'x': sub, 's': draw(seed)})
            rows = draw(st.permutations(rows))
        if t in HIST:
            # AEMO's latest file does not hold everything: spread the records over the months, some in several
            for k, ym in enumerate(months):
                part = [r for r in rows if draw(st.integers(0, 3)) > 0]
                if k and draw(st.integers(0, 3)) == 0:
                    part = [dict(r, s=r['s'] + 1) for r in part]
                if draw(st.integers(0, 9)) > 0:
                    files[t + ' %d %d' % ym] = {'rows': part, 'drop': False, 'shuffle': draw(st.integers(0, 3))}
        else:
            for k, ym in enumerate(months):
                part = rows if k == len(months) - 1 else rows[:draw(st.integers(0, len(rows)))]
                if kind == 'start':
                    part = rows
                files[t + ' %d %d' % ym] = {'rows': part, 'drop': draw(st.booleans()) and t in OPTIONAL,
                                            'shuffle': draw(st.integers(0, 3))}
    return files, [i for m in ints for i in m]


@st.composite
def case(draw):
    start = draw(st.sampled_from([(2020, 12), (2019, 11), (2024, 6), (2024, 7), (2013, 2), (2023, 12), (2024, 12),
                                  (2021, 9)]))
    nm = draw(st.integers(2, 4))
    months = [nxt(start, k) for k in range(nm)]
    files, ints = draw(archive(months))
    kind = draw(st.sampled_from(['populate', 'populate', 'steps', 'steps', 'steps']))
    ops = []
    if kind == 'populate':
        a = draw(st.integers(1, nm - 1))
        b = draw(st.integers(a, nm - 1))
        ops.append(['populate', list(months[a]), list(months[b])])
        if draw(st.integers(0, 3)) == 0:
            a = draw(st.integers(1, nm - 1))
            ops.append(['populate', list(months[a]), list(months[draw(st.integers(a, nm - 1))])])
    else:
        ops.append(['create'])
        if draw(st.integers(0, 3)):     # usual use: everything is loaded, then some is changed
            order = draw(st.permutations(list(range(nm))))
            ops += [['add', t, list(months[k])] for k in order[:draw(st.integers(1, nm))] for t in MULTI]
            m = draw(st.sampled_from(months))
            ops += [['set', t, list(m)] for t in SINGLE + HIST]
    for _ in range(draw(st.integers(0, 5))):
        o = draw(st.sampled_from(['add', 'set', 'set', 'missing', 'reopen', 'create', 'query']))
        m = list(draw(st.sampled_from(months)))
        if o == 'add':
            ops.append(['add', draw(st.sampled_from(MULTI)), m])
        elif o == 'set':
            ops.append(['set', draw(st.sampled_from(SINGLE + HIST)), m])
        elif o == 'missing':
            ops.append(['missing', draw(st.sampled_from(MULTI + SINGLE)), m])
        elif o == 'create' and draw(st.integers(0, 3)):
            continue
        else:
            ops.append([o])
    return {'files': files, 'ops': ops, 'queries': draw(st.lists(st.sampled_from(ints), min_size=1, max_size=3,
                                                               unique=True))}


def value(row, cols, i, table):
    return ((row['s'] * 37 + i * 101) % 4001) / 8 - 100


def text(row, col):
    return '%s_%d' % (col[:3], (row['s'] + len(col)) % 7)


def record(t, row, f):
    """The record as the user should see it, {column: value}."""
    kind, keys, vals = SPEC[t]
    out = dict(zip(keys, row['k']))
    if kind == 'settle':
        out['SETTLEMENTDATE'] = row['t']
    if t == 'DISPATCHCONSTRAINT':
        out['GENCONID_EFFECTIVEDATE'], out['GENCONID_VERSIONNO'] = row['e'], row['v']
    elif 'e' in row:
        out['EFFECTIVEDATE'], out['VERSIONNO'] = row['e'], row['v']
    if 'a' in row:
        out['START_DATE'], out['END_DATE'] = row['a'], row['b']
    if t in EXTRA_KEY:
        out[EXTRA_KEY[t]] = row['x']
    for i, c in enumerate(vals):
        out[c] = None if f['drop'] and c in OPTIONAL.get(t, []) else value(row, vals, i, t)
    for c in TEXT.get(t, []):
        out[c] = text(row, c)
    return out


def columns(t):
    probe = {'k': [''] * len(SPEC[t][1]), 's': 0, 't': '', 'x': ''}
    if SPEC[t][0] in ('version', 'interconnector', 'constraint') or t == 'DISPATCHCONSTRAINT':
        probe.update(e='', v=0)
    if SPEC[t][0] == 'start':
        probe.update(a='', b='')
    return list(record(t, probe, {'drop': False}))


def zipped(t, f):
    cols = [c for c in columns(t) if not (f['drop'] and c in OPTIONAL.get(t, []))]
    if f['shuffle'] % 2:
        cols = cols[::-1]
    multi = SPEC[t][0] == 'settle'
    head = ['I', 'DISPATCH' if multi else 'PARTICIPANT_REGISTRATION', t, '1'] + (['INTERVENTION'] if multi else []) + \
           cols + ['LASTCHANGED']
    lines = ['C,NEMP.WORLD,DVD_' + t + ',AEMO,PUBLIC,2020/02/08,09:00:00,1,x,1', ','.join(head)]
    for r in f['rows']:
        rec = record(t, r, f)
        vals = ['D', head[1], t, '1'] + ([str(r.get('i', 0))] if multi else [])
        vals += ['"%s"' % rec[c] if isinstance(rec[c], str) else repr(rec[c]) for c in cols]
        lines.append(','.join(vals + ['"2020/01/01 00:00:00"']))
    lines.append('C,"END OF REPORT",%d' % (len(lines) + 1))
    b = io.BytesIO()
    with zipfile.ZipFile(b, 'w') as z:
        z.writestr('PUBLIC_DVD_%s.CSV' % t, '\n'.join(lines) + '\n')
    return b.getvalue()


NEW = re.compile(r'/MMSDM/(\d{4})/MMSDM_(\d{4})_(\d\d)/MMSDM_Historical_Data_SQLLoader/DATA/'
                 r'PUBLIC_ARCHIVE#([A-Z_]+)#FILE01#(\d{4})(\d\d)010000\.zip$')
OLD = re.compile(r'/MMSDM/(\d{4})/MMSDM_(\d{4})_(\d\d)/MMSDM_Historical_Data_SQLLoader/DATA/'
                 r'PUBLIC_DVD_([A-Z_]+)_(\d{4})(\d\d)010000\.zip$')


def server(files, absent):
    def serve(url):
        path = urllib.parse.unquote(url)
        m = NEW.search(path) or OLD.search(path)
        if not m:
            return None
        y, y1, m1, t, y2, m2 = m.groups()
        y, mo = int(y), int(m1)
        if not (y == int(y1) == int(y2) and mo == int(m2)):
            return None
        if bool(NEW.search(path)) != ((y, mo) >= (2024, 8)):
            return None
        key = '%s %d %d' % (t, y, mo)
        if key in absent or key not in files:
            return None
        return zipped(t, files[key])
    return serve


class Model:
    """What the database holds, as lists of records."""

    def __init__(self, files):
        self.files, self.t = files, None

    def create(self):
        self.t = {t: [] for t in SPEC}

    def add(self, t, ym):
        f = self.files['%s %d %d' % (t, ym[0], ym[1])]
        for r in f['rows']:
            if r.get('i'):
                continue
            rec = record(t, r, f)
            k = tuple(rec[c] for c in ['SETTLEMENTDATE'] + SPEC[t][1])
            if not any(tuple(x[c] for c in ['SETTLEMENTDATE'] + SPEC[t][1]) == k for x in self.t[t]):
                self.t[t].append(rec)

    def set(self, t, ym):
        if t in HIST:
            out, seen, any_file = [], set(), False
            y, m = ym
            while y >= 2010:
                f = self.files.get('%s %d %d' % (t, y, m))
                if f is not None:
                    any_file = True
                    new = []
                    for r in f['rows']:
                        rec = record(t, r, f)
                        k = tuple(rec[c] for c in SPEC[t][1] + ['EFFECTIVEDATE', 'VERSIONNO'])
                        if k not in seen:
                            new.append((k, rec))
                    seen |= {k for k, _ in new}
                    out += [r for _, r in new]
                y, m = nxt((y, m), -1)
            if any_file:
                self.t[t] = out
        else:
            f = self.files['%s %d %d' % (t, ym[0], ym[1])]
            self.t[t] = [record(t, r, f) for r in f['rows']]

    def populate(self, a, b):
        self.create()
        m = nxt(tuple(a), -1)
        while m <= tuple(b):
            for t in MULTI:
                self.add(t, m)
            m = nxt(m)
        for t in SINGLE + HIST:
            self.set(t, b)

    def get(self, t, when):
        kind, keys, _ = SPEC[t]
        rows = self.t[t]
        if kind == 'all':
            return rows
        if kind == 'settle':
            return [r for r in rows if r['SETTLEMENTDATE'] == when]
        if kind == 'start':
            return [r for r in rows if r['START_DATE'] <= when < r['END_DATE']]
        if kind == 'constraint':
            used = {(d['CONSTRAINTID'], d['GENCONID_EFFECTIVEDATE'], d['GENCONID_VERSIONNO'])
                    for d in self.t['DISPATCHCONSTRAINT'] if d['SETTLEMENTDATE'] == when}
            return [r for r in rows if (r['GENCONID'], r['EFFECTIVEDATE'], r['VERSIONNO']) in used]
        out = []
        best = {}
        for r in rows:
            if r['EFFECTIVEDATE'] <= when:
                k = tuple(r[c] for c in keys)
                best[k] = max(best.get(k, ('', 0)), (r['EFFECTIVEDATE'], r['VERSIONNO']))
        for r in rows:
            if best.get(tuple(r[c] for c in keys)) == (r['EFFECTIVEDATE'], r['VERSIONNO']):
                out.append(r)
        if kind == 'interconnector':
            live = {d['INTERCONNECTORID'] for d in self.t['DISPATCHINTERCONNECTORRES'] if d['SETTLEMENTDATE'] == when}
            out = [r for r in out if r['INTERCONNECTORID'] in live]
        return out


def norm(v):
    if v is None or (isinstance(v, float) and math.isnan(v)):
        return None
    try:
        return round(float(v), 9)
    except (TypeError, ValueError):
        return str(v)


def compare(t, df, want, when):
    cols = columns(t)
    check(all(c in df.columns for c in cols), '%s: columns %r missing from the data of %s', t,
          [c for c in cols if c not in df.columns], when)
    got = sorted((tuple(norm(v) for v in row) for row in df[cols].itertuples(index=False)), key=repr)
    exp = sorted((tuple(norm(r[c]) for c in cols) for r in want), key=repr)
    if got != exp:
        extra, lost = list(got), []
        for e in exp:
            if e in extra:
                extra.remove(e)
            else:
                lost.append(e)
        check(False, '%s at %s: %d records expected, %d returned; missing %r; unexpected %r (columns %r)', t, when,
              len(exp), len(got), lost[:2], extra[:2], cols)


def run(c):
    from nempy.historical_inputs import mms_db
    work = tempfile.mkdtemp(prefix='c17_')
    labels = set()
    con = None
    try:
        path = os.path.join(work, 'h.db')
        con = sqlite3.connect(path)
        db = mms_db.DBManager(con)
        model = Model(c['files'])
        added = set()
        nontrivial = False

        def query():
            nt = False
            for when in c['queries']:
                for t in SPEC:
                    want = model.get(t, when)
                    df = getattr(db, t).get_data() if SPEC[t][0] == 'all' else getattr(db, t).get_data(when)
                    compare(t, df, want, when)
                    if SPEC[t][0] not in ('all', 'settle') and 0 < len(want) < len(model.t[t]):
                        nt = True
            return nt

        for op in c['ops']:
            absent = set()
            if op[0] == 'missing':
                absent = {'%s %d %d' % (op[1], op[2][0], op[2][1])}
            with nemde.FakeWeb(server(c['files'], absent)):
                if op[0] == 'create':
                    db.create_tables()
                    model.create()
                    added = set()
                elif op[0] == 'populate':
                    db.populate(op[1][0], op[1][1], op[2][0], op[2][1], verbose=False)
                    model.populate(op[1], op[2])
                    added = set()
                    m = nxt(tuple(op[1]), -1)
                    while m <= tuple(op[2]):
                        added |= {(t, m) for t in MULTI}
                        m = nxt(m)
                elif op[0] == 'add':
                    if (op[1], tuple(op[2])) in added:
                        # adding a month again: refused or ignored, but no record may appear twice or be lost
                        labels.add('added again')
                        try:
                            getattr(db, op[1]).add_data(year=op[2][0], month=op[2][1])
                        except Exception:
                            pass
                    else:
                        getattr(db, op[1]).add_data(year=op[2][0], month=op[2][1])
                        model.add(op[1], op[2])
                        added.add((op[1], tuple(op[2])))
                elif op[0] == 'set':
                    getattr(db, op[1]).set_data(year=op[2][0], month=op[2][1])
                    model.set(op[1], op[2])
                elif op[0] == 'missing':
                    try:
                        o = getattr(db, op[1])
                        (o.add_data if op[1] in MULTI else o.set_data)(year=op[2][0], month=op[2][1])
                        failed = False
                    except Exception as e:
                        failed = type(e).__name__
                    check(failed, 'loading %s for a month AEMO does not have did not raise an error', op[1])
                    check('Missing' in failed, 'loading %s for a month AEMO does not have raised %s, not a missing data '
                                               'error', op[1], failed)
                elif op[0] == 'reopen':
                    con.close()
                    con = sqlite3.connect(path)
                    db = mms_db.DBManager(con)
                elif op[0] == 'query':
                    query()
            labels.add(op[0])
        nontrivial = query()
        return {'nontrivial': nontrivial, 'labels': sorted(labels)}
    finally:
        if con is not None:
            con.close()
        shutil.rmtree(work, ignore_errors=True)


# ------------------------------------------------------------- the table classes kept for other inputs, used directly

@st.composite
def direct_case(draw):
    kind = draw(st.sampled_from(['day', 'day', 'interval']))
    base = draw(st.sampled_from([(2019, 1, 1), (2018, 12, 31), (2020, 2, 28), (2024, 7, 31), (2023, 6, 15)]))
    if kind == 'day':
        stamps = draw(st.lists(st.integers(-2, 3), min_size=1, max_size=6, unique=True))
    else:
        stamps = draw(st.lists(st.integers(-300, 600), min_size=1, max_size=10, unique=True))
    rows = [[s, u, draw(st.integers(0, 400)) / 4] for s in stamps
            for u in draw(st.lists(st.sampled_from(['A', 'B', 'C']), min_size=1, max_size=3, unique=True))]
    rows = draw(st.permutations(rows))
    edge = st.sampled_from([48, 49, 47, 0, 287, 288, 289, 288 + 48, 288 + 49, 1, 144])
    asked = draw(st.lists(st.one_of(edge, st.integers(-300, 600),
                                    st.sampled_from(stamps) if kind == 'interval' else edge), min_size=1, max_size=6))
    return {'kind': kind, 'base': list(base), 'rows': [list(r) for r in rows], 'asked': asked}


def run_direct(c):
    from nempy.historical_inputs import mms_db
    import pandas as pd
    t0 = dt.datetime(*c['base'])
    day = c['kind'] == 'day'
    fmt = '%Y/%m/%d %H:%M:%S'
    col = 'SETTLEMENTDATE' if day else 'INTERVAL_DATETIME'

    def stamp(s):
        return (t0 + (dt.timedelta(days=s) if day else dt.timedelta(minutes=5 * s))).strftime(fmt)
    con = sqlite3.connect(':memory:')
    try:
        cls = mms_db.InputsByDay if day else mms_db.InputsByIntervalDateTime
        table = cls(table_name='EXAMPLE', table_columns=[col, 'DUID', 'INITIALMW'], table_primary_keys=[col, 'DUID'],
                    con=con)
        table.create_table_in_sqlite_db()
        pd.DataFrame([[stamp(s), u, v] for s, u, v in c['rows']], columns=[col, 'DUID', 'INITIALMW']).to_sql(
            'EXAMPLE', con=con, if_exists='append', index=False)
        some = False
        for k in c['asked']:
            when = t0 + dt.timedelta(minutes=5 * k)
            if day:      # the market day of an interval ending at 04:00 or earlier is the one before
                key = (when - dt.timedelta(hours=4, minutes=5)).strftime('%Y/%m/%d') + ' 00:00:00'
            else:
                key = when.strftime(fmt)
            want = sorted([stamp(s), u, float(v)] for s, u, v in c['rows'] if stamp(s) == key)
            df = table.get_data(when.strftime(fmt))
            got = sorted([r[0], r[1], float(r[2])] for r in df[[col, 'DUID', 'INITIALMW']].values.tolist())
            check(got == want, '%s.get_data(%s) returned %r, the records that applied are %r', cls.__name__,
                  when.strftime(fmt), got[:4], want[:4])
            some |= 0 < len(want) < len(c['rows'])
        return {'nontrivial': some, 'labels': [c['kind']]}
    finally:
        con.close()


def parts():
    return [Part('history', case, run, 700, 12000), Part('direct', direct_case, run_direct, 600, 8000)]
