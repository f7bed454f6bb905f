"""C19: fast start units are committed and moved along their inflexibility profile over the interval."""
import math
import shutil
import tempfile

import hypothesis.strategies as st

import histdb
from core import Part, check
from checks.c18 import background, same

ID = 'C19'
RULE = ('hypothesis draws 1-4 fast start units (any profile, any current mode, time spent in it), first pass dispatch '
        'results and a history of calls; the modes and times reported for the second pass are compared with a simulation '
        'of the profile minute by minute (AEMO "Fast-Start Inflexibility Profile" sections 2 and 4.2).  Non-trivial: some '
        'unit changes mode or is committed')
ASSUMPTIONS = ['time in the current mode does not exceed the mode\'s length and is zero in mode 0 (AEMO resets it)',
               'first pass targets are zero or above AEMO\'s 0.005 MW commitment threshold']
UNITS = ['JBUTTERS', 'VPGS1', 'W/HOE#1', 'AGLHAL']
length = st.sampled_from([0, 0, 1, 2, 3, 4, 5, 6, 10, 15, 20])


@st.composite
def case(draw):
    us = []
    for uid in draw(st.permutations(UNITS))[:draw(st.integers(1, 4))]:
        T = [draw(length) for _ in range(4)]
        mode = draw(st.integers(0, 4))
        spent = 0
        if mode:
            spent = draw(st.integers(0, T[mode - 1]))
            if mode < 4 and draw(st.booleans()):
                spent = max(0, T[mode - 1] - draw(st.integers(0, 7)))
        us.append({'id': uid, 'T': T, 'mode': mode, 'time': spent, 'min': draw(st.sampled_from([0, 10, 35, 70])),
                   'type': draw(st.sampled_from(['GENERATOR', 'GENERATOR', 'LOAD']))})
    calls = draw(st.lists(st.one_of(st.just(None), st.lists(st.sampled_from([0.0, 0.0, 1.0, 55.5]), min_size=len(us),
                                                            max_size=len(us))), min_size=1, max_size=3))
    return {'units': us, 'calls': calls, 'all': draw(st.booleans()), 'others': draw(st.booleans())}


def simulate(u, dispatch):
    """-> end mode, time in end mode, minutes since mode two ended (None unless it ended within this interval)."""
    mode, spent, left = u['mode'], u['time'], 5
    if mode == 0:
        if dispatch <= 0:
            return 0, 0, None
        mode, spent = 1, 0
    since = None
    while mode < 4 and u['T'][mode - 1] - spent < left:
        left -= u['T'][mode - 1] - spent
        if mode == 2:
            since = left
        mode, spent = mode + 1, 0
    spent += left
    if mode == 4:
        spent = min(spent, u['T'][3])
    return mode, spent, since


def run(c):
    import pandas as pd
    from nempy.historical_inputs import units as nu
    work = tempfile.mkdtemp(prefix='c19_')
    try:
        traders = []
        for u in c['units']:
            en = 'LDOF' if u['type'] == 'LOAD' else 'ENOF'
            p = dict({'TradeType': en, 'Direction': None}, **{'PriceBand%d' % i: float(i) for i in range(1, 11)})
            t = dict({'TradeType': en, 'Direction': None, 'MaxAvail': 100.0, 'RampUpRate': 600.0, 'RampDnRate': 600.0},
                     **{'BandAvail%d' % i: 10.0 for i in range(1, 11)})
            fast = {'FastStart': '1', 'MinLoadingMW': u['min'], 'CurrentMode': u['mode'], 'CurrentModeTime': u['time']}
            fast.update({'T%d' % (i + 1): x for i, x in enumerate(u['T'])})
            traders.append({'id': u['id'], 'type': u['type'], 'initial': [['InitialMW', 0.0], ['AGCStatus', 0]],
                            'fast': fast, 'prices': [p], 'trades': [t], 'uigf': None})
        interval = '2024/07/10 12:05:00'
        doc = {'interval': interval, 'traders': traders + background(), 'constraints': [
            {'id': 'C', 'type': 'LE', 'cost': 1.0, 'unit': [], 'region': [], 'inter': []}],
            'solutions': [{'id': 'C', 'rhs': 1.0}], 'inters': [], 'region_solutions': [], 'violations': {}}
        tables = {'DUDETAILSUMMARY': (['DUID', 'START_DATE', 'END_DATE'], []), 'DISPATCHLOAD': (['SETTLEMENTDATE', 'DUID'],
                                                                                            [])}
        ud = nu.UnitData(histdb.loader(work, interval, doc, tables))
        moved = False
        labels = set()
        for disp in c['calls']:
            if disp is None:
                same('profiles of the first pass', ud.get_fast_start_profiles_for_dispatch(), ['unit'], ['current_mode'],
                     {(u['id'],): (u['mode'],) for u in c['units']})
                labels.add('first pass')
                continue
            rows = [[u['id'], 'load' if u['type'] == 'LOAD' else 'generator', 'energy', d]
                    for u, d in zip(c['units'], disp)]
            if c['others']:
                rows += [['BGG', 'generator', 'energy', 60.0], ['BGG', 'generator', 'raise_reg', 5.0]]
                rows = [[c['units'][0]['id'], rows[0][1], 'raise_reg', 9.0]] + rows
            df = pd.DataFrame(rows, columns=['unit', 'dispatch_type', 'service', 'dispatch'])
            got = ud.get_fast_start_profiles_for_dispatch(df, return_all_columns=c['all'])
            want = {}
            for u, d in zip(c['units'], disp):
                m, t, s = simulate(u, d)
                want[(u['id'],)] = (m, t, u['T'][1], u['T'][3], u['min'], s)
                if m != u['mode']:
                    moved = True
                    labels.add('%d to %d' % (u['mode'], m))
            same('profiles of the second pass', got, ['unit'], ['end_mode', 'time_in_end_mode', 'mode_two_length',
                                                              'mode_four_length', 'min_loading',
                                                              'time_since_end_of_mode_two'], want)
            if c['all']:
                same('profiles of the second pass', got, ['unit'], ['current_mode', 'time_in_current_mode'],
                     {(u['id'],): (u['mode'], u['time']) for u in c['units']})
        return {'nontrivial': moved, 'labels': sorted(labels)}
    finally:
        shutil.rmtree(work, ignore_errors=True)


def parts():
    return [Part('profiles', case, run, 2500, 60000)]
