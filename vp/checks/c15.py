"""C15: generic constraint right hand sides recomputed from NEMDE equations follow AEMO's RPN rules, for any history of
input updates."""
import shutil
import tempfile

import hypothesis.strategies as st

import nemde
from core import Part, Skip, Violation, check

ID = 'C15'
RULE = ('hypothesis draws a NEMDE case file (SCADA values with repeats and bad values, entered values, initial MW, market '
        'link availabilities, constraint functions, equations of 1-9 terms over every operator, bracketing groups nested '
        'up to two deep) and a history of input updates and computations; every computed right hand side is compared with '
        'an independent interpreter of AEMO Constraint Implementation Guidelines Appendix A evaluated on the current '
        'inputs.  Non-trivial: the history updates an input that changes a constraint, or an equation uses a stack '
        'operator, a function or a group')
ASSUMPTIONS = ['terms whose input value is absent from the case file, constants under one-value operators, and EXLEZ '
               'factors when nothing is exchanged are left undecided: the guidelines do not settle them',
               'type B (branch) terms are documented as unsupported']

ONE = ['STEP', 'POW2', 'POW3', 'SQRT', 'ABS', 'NEG']
TWO = ['ADD', 'SUB', 'MUL', 'DIV', 'MAX', 'MIN']
IDS = {'A': ['A1', 'A2', 'AX'], 'S': ['S1', 'S2'], 'R': ['NSW1', 'VIC1'], 'I': ['I1', 'L1'], 'W': ['W1', 'A1'],
       'T': ['U1', 'U2'], 'E': ['E1', 'E2', 'A1'], 'M': ['L1'], 'N': ['L1']}
vals = st.one_of(st.integers(-40, 40).map(float), st.integers(-400, 400).map(lambda x: x / 8),
                 st.sampled_from([0.0, 1.0, 1.0, 0.0, 250.5]))
facs = st.sampled_from([1.0, 1.0, -1.0, 0.5, 2.0, -0.25, 3.0, 10.0, 0.0, 1.25])


@st.composite
def term(draw, h, refs):
    """One plain term allowed at stack height h -> (item, new height)."""
    f = draw(facs)
    kind = draw(st.sampled_from(['plain', 'plain', 'one', 'two', 'push', 'stack', 'stack', 'const', 'pop']))
    typ, sid = draw(st.sampled_from(refs))
    if kind == 'const':
        op = draw(st.sampled_from([None, None, 'PUSH'] + TWO))
        if op == 'DIV' and f == 0:
            f = 2.0
        return {'k': 't', 'type': 'C', 'id': 'CONST', 'f': f, 'op': op}, h + (op == 'PUSH')
    if kind == 'one':
        return {'k': 't', 'type': typ, 'id': sid, 'f': f, 'op': draw(st.sampled_from(ONE))}, h
    if kind == 'two':
        return {'k': 't', 'type': typ, 'id': sid, 'f': f, 'op': draw(st.sampled_from(TWO))}, h
    if kind == 'push':
        return {'k': 't', 'type': typ, 'id': sid, 'f': f, 'op': 'PUSH'}, h + 1
    if kind == 'pop':
        return {'k': 't', 'type': typ, 'id': sid, 'f': f, 'op': 'POP'}, h
    if kind == 'stack':
        ops = [None, 'DUP'] + ONE
        if h >= 2:
            ops += TWO + ['EXCH', 'RSD', 'RSU', 'POP', 'EXLEZ', 'EXLEZ']
        op = draw(st.sampled_from(ops))
        d = 1 if op == 'DUP' else -1 if op in TWO + ['POP'] else 0
        if op == 'EXLEZ' and draw(st.booleans()):
            f = 1.0
        return {'k': 't', 'type': 'U', 'id': 'STACK', 'f': f, 'op': op}, h + d
    return {'k': 't', 'type': typ, 'id': sid, 'f': f, 'op': None}, h


@st.composite
def items(draw, refs, depth, lo, hi, top=True):
    out, h = [], 1
    for i in range(draw(st.integers(lo, hi))):
        if depth > 0 and draw(st.integers(0, 4)) == 0:
            # A.3 puts the G term after its members; nempy also accepts it first, which the guidelines do not define
            # for brackets within brackets: only the defined layout is nested.
            style = draw(st.sampled_from(['after', 'after', 'before'])) if top else 'after'
            sub = draw(items(refs, depth - 1 if style == 'after' else 0, 1, 3, False))
            op = draw(st.sampled_from([None, None, None, 'PUSH', 'MAX', 'ABS', 'SUB', 'STEP', 'NEG']))
            out.append({'k': 'g', 'form': style, 'f': draw(facs), 'op': op,
                        'items': sub})
            h += op == 'PUSH'
        elif draw(st.integers(0, 7)) == 0:
            # the selection idiom of A.9: two candidates, a test, an exchange
            t = [dict(zip(('type', 'id'), draw(st.sampled_from(refs))), k='t', f=draw(facs), op='PUSH')
                 for _ in range(3)]
            test = dict(t.pop(), op='POP') if draw(st.booleans()) else None
            u = {'k': 't', 'type': 'U', 'id': 'STACK'}
            out += t + ([test] if test else [])
            h += len(t)
            if test is None:
                out.append(dict(u, f=1.0, op='POP'))
                h -= 1
            out.append(dict(u, f=draw(st.sampled_from([1.0, 1.0, 2.0])), op='EXLEZ'))
        else:
            t, h = draw(term(h, refs))
            out.append(t)
    return out


@st.composite
def case(draw):
    scada, single = {}, []
    refs = []
    for typ in 'ASRIW':
        rows = []
        ids = [i for i in IDS[typ] if draw(st.integers(0, 3)) > 0] or IDS[typ][:1]
        for i in ids:
            for k in range(draw(st.sampled_from([1, 1, 1, 2, 3]))):
                rows.append({'id': i, 'value': draw(vals), 'good': draw(st.integers(0, 4)) > 0, 'ems': 'EMS%d' % k})
            refs.append((typ, i))
        if not any(r['good'] for r in rows):
            rows[0]['good'] = True
        scada[typ] = rows
    T = [[i, draw(vals)] for i in IDS['T']]
    E = [[i, draw(vals)] for i in IDS['E'] if draw(st.booleans())] or [['E1', draw(vals)]]
    mnsp = [draw(vals), draw(vals)]
    refs += [('T', i) for i, _ in T] + [('E', i) for i, _ in E] + [('M', 'L1'), ('N', 'L1')]
    eqs = []
    for k in range(draw(st.integers(0, 3))):      # an equation may reference the ones before it
        eqs.append(['X%d' % k, draw(items(refs + [('X', e[0]) for e in eqs] * 3, 1, 1, 4))])
    if draw(st.booleans()):                       # the file lists equations in any order
        eqs = eqs[::-1]
    crefs = refs + [('X', e[0]) for e in eqs] * 3
    cons = [['C%d' % k, draw(items(crefs, 2, 1, draw(st.sampled_from([3, 6, 9]))))]
            for k in range(draw(st.integers(1, 3)))]
    hist = []
    for _ in range(draw(st.integers(0, 6))):
        kind = draw(st.sampled_from(['update', 'update', 'compute', 'list', 'bad']))
        if kind == 'update':
            hist.append(['update'] + list(draw(st.sampled_from(refs))) + [draw(vals)])
        elif kind == 'bad':
            hist.append(['bad', draw(st.sampled_from(['C', 'R', 'X', 'T', 'E', 'M', 'N', 'A'])), draw(vals)])
        else:
            hist.append([kind, [draw(st.sampled_from(cons))[0] for _ in range(draw(st.integers(1, 3)))]])
    return {'scada': scada, 'T': T, 'E': E, 'mnsp': mnsp, 'eqs': eqs, 'cons': cons, 'hist': hist,
            'intervention': draw(st.booleans())}


# ---------------------------------------------------------------------------------------------- the reference reading

class Ref:
    def __init__(self, case):
        self.v = {}
        for typ, rows in case['scada'].items():
            for r in rows:
                self.v.setdefault((typ, r['id']), []).append(r['value'])
        for i, x in case['T']:
            self.v[('T', i)] = [x]
        for i, x in case['E']:
            self.v[('E', i)] = [x]
        self.v[('M', 'L1')] = [case['mnsp'][0]]
        self.v[('N', 'L1')] = [case['mnsp'][1]]
        self.eqs = dict(case['eqs'])
        self.cons = dict(case['cons'])

    def value(self, item):
        if item['k'] == 'g':
            return self.run(item['items'])
        if item['type'] == 'X':
            return self.run(self.eqs[item['id']])
        return sum(self.v[(item['type'], item['id'])])

    @staticmethod
    def sign(x):
        if x != 0 and abs(x) < 1e-7:
            raise Skip('a switch decided by rounding')
        return x

    def one(self, op, x):
        if op == 'STEP':
            return 1.0 if self.sign(x) > 0 else 0.0
        if op == 'POW2':
            return x * x
        if op == 'POW3':
            return x * x * x
        if op == 'SQRT':
            if self.sign(x) < 0:
                raise Skip('square root of a negative value')
            return x ** 0.5
        return abs(x) if op == 'ABS' else -x

    def two(self, op, a, b):
        """a: the earlier value, b: the later one."""
        if op == 'DIV':
            if abs(b) < 1e-6:
                raise Skip('division by zero')
            return a / b
        return {'ADD': a + b, 'SUB': a - b, 'MUL': a * b, 'MAX': max(a, b), 'MIN': min(a, b)}[op]

    def run(self, its):
        S, flag = [0.0], 'unset'          # S[-1] is the top
        for it in its:
            f, op = it['f'], it['op']
            if it['k'] == 't' and it['type'] == 'U':
                if op is None:
                    S[-1] *= f
                elif op in ONE:
                    S[-1] = self.one(op, S[-1]) * f
                elif op in TWO:
                    b = S.pop()
                    a = S.pop()
                    S.append(self.two(op, a, b) * f)
                elif op == 'DUP':
                    S.append(S[-1] * f)
                elif op == 'EXCH':
                    S[-1], S[-2] = S[-2], S[-1]
                    S[-1] *= f
                elif op == 'RSD':
                    S.append(S.pop(0) * f)
                elif op == 'RSU':
                    S.insert(0, S.pop())
                    S[-1] *= f
                elif op == 'POP':
                    flag = self.sign(S.pop()) <= 0
                elif op == 'EXLEZ':
                    if flag == 'used':
                        raise Skip('EXLEZ twice on one POP')
                    if flag is True:
                        S[-1], S[-2] = S[-2], S[-1]
                        S[-1] *= f
                        flag = 'used'
                    elif f != 1.0:
                        raise Skip('EXLEZ factor without an exchange')
            elif it['k'] == 't' and it['type'] == 'C':
                if op is None:
                    S[-1] += f
                elif op == 'PUSH':
                    S.append(f)
                else:
                    S[-1] = self.two(op, S[-1], f)
            else:
                x = self.value(it)
                if op is None:
                    S[-1] += f * x
                elif op in ONE:
                    S[-1] += f * self.one(op, x)
                elif op in TWO:
                    S[-1] = self.two(op, S[-1], x) * f
                elif op == 'PUSH':
                    S.append(f * x)
                elif op == 'POP':
                    flag = self.sign(x) <= 0
            if any(abs(x) > 1e15 for x in S):
                raise Skip('overflow')
        return S[-1]

    def uses(self, its, typ, sid):
        for it in its:
            if it['k'] == 'g':
                if self.uses(it['items'], typ, sid):
                    return True
            elif (it['type'], it['id']) == (typ, sid):
                return True
            elif it['type'] == 'X' and self.uses(self.eqs[it['id']], typ, sid):
                return True
        return False


# ------------------------------------------------------------------------------------------------- laying out the file

def flatten(its):
    """Tree -> RHSTerm attribute rows; a group's id is the TermID of its G term, as in AEMO's tables."""
    rows = []

    def emit(its, parent):
        for it in its:
            if it['k'] == 't':
                rows.append([it, parent, None])
            else:
                me = [it, parent, None]
                if it['form'] == 'before':
                    rows.append(me)
                    emit(it['items'], me)
                else:
                    emit(it['items'], me)
                    rows.append(me)
    emit(its, None)
    for n, r in enumerate(rows):
        r[2] = str(n + 1)
    out = []
    for it, parent, n in rows:
        a = {'TermID': n, 'GroupTerm': parent[2] if parent is not None else None,
             'SpdID': it['id'] if it['k'] == 't' else 'GROUP', 'SpdType': it['type'] if it['k'] == 't' else 'G',
             'Multiplier': it['f'], 'Operation': it['op'], 'Default': 77.0 if n == '2' else None}
        out.append(a)
    return out


def build(case, folder):
    doc = {'interval': '2019/01/02 12:05:00', 'intervention': case['intervention'],
           'traders': [{'id': i, 'type': 'GENERATOR', 'trades': None,
                        'initial': [['AGCStatus', 0], ['InitialMW', x if not case['intervention'] else x + 5],
                                    ['WhatIfInitialMW', x if case['intervention'] else x - 3]],
                        'prices': [{'TradeType': 'ENOF'}]} for i, x in case['T']],
           'scada': case['scada'], 'entered': case['E'],
           'equations': [{'id': e, 'terms': flatten(t)} for e, t in case['eqs']] + [{'id': 'EMPTY', 'terms': []}],
           'constraints': [{'id': c, 'terms': flatten(t)} for c, t in case['cons']] + [{'id': 'NORHS'}],
           'inters': [{'id': 'L1', 'mnsp': True, 'from': 'TAS1', 'to': 'VIC1',
                       'offers': [['VIC1', case['mnsp'][1]], ['TAS1', case['mnsp'][0]]]},
                      {'id': 'I1', 'mnsp': False, 'from': 'NSW1', 'to': 'VIC1'}],
           'solutions': [{'id': c, 'rhs': 10.5 * k, 'intervention': i} for k, (c, _) in enumerate(case['cons'])
                         for i in (['0', '1'] if case['intervention'] else ['0'])] + [{'id': 'NORHS', 'rhs': 1.0}]}
    nemde.write(doc, folder, doc['interval'])
    m = nemde.manager(folder)
    m.load_interval(doc['interval'])
    return m


def run(case):
    from nempy.historical_inputs.rhs_calculator import RHSCalc
    folder = tempfile.mkdtemp(prefix='c15_')
    try:
        rhs = RHSCalc(build(case, folder))
    finally:
        shutil.rmtree(folder, ignore_errors=True)
    ref = Ref(case)
    labels, decided, changed = set(), 0, False

    def want(c):
        try:
            return ref.run(ref.cons[c])
        except Skip:
            return None

    def agree(got, c, how):
        nonlocal decided
        w = want(c)
        if w is None:
            return
        decided += 1
        check(isinstance(got, (int, float)) and abs(got - w) <= 1e-6 * max(1.0, abs(w)),
              '%s: right hand side of %s is %r, the equation evaluates to %r', how, c, got, w)

    for k, c in enumerate(ref.cons):
        check(rhs.get_nemde_rhs(c) == 10.5 * k, 'get_nemde_rhs(%s) is %r, the file says %r', c, rhs.get_nemde_rhs(c),
              10.5 * k)
        if want(c) is not None:
            agree(rhs.compute_constraint_rhs(c), c, 'before any update')
    for step in case['hist']:
        if step[0] == 'update':
            _, typ, sid, x = step
            if typ == 'R' or len(ref.v[(typ, sid)]) > 1:
                try:
                    rhs.update_spd_id_value(sid, typ, str(x))
                except ValueError:
                    labels.add('rejected-update')
                else:
                    raise Violation('update of %s %s was accepted' % (typ, sid))
                continue
            before = {c: want(c) for c in ref.cons}
            rhs.update_spd_id_value(sid, typ, str(x))
            ref.v[(typ, sid)] = [x]
            dep = rhs.get_rhs_constraint_equations_that_depend_value(sid, typ)
            expect = [c for c in ref.cons if ref.uses(ref.cons[c], typ, sid)]
            check(sorted(dep) == sorted(expect), 'constraints depending on %s %s are %r, expected %r', typ, sid, dep,
                  expect)
            if expect:
                labels.add('dependent')
            for c in ref.cons:
                w = want(c)
                if w is not None and before[c] is not None and abs(w - before[c]) > 1e-6:
                    changed = True
        elif step[0] == 'bad':
            try:
                rhs.update_spd_id_value('NO_SUCH_ID', step[1], str(step[2]))
            except Exception as e:
                check(step[1] == 'A' or isinstance(e, ValueError), 'update of an unknown %s id raised %r', step[1], e)
            else:
                raise Violation('update of an unknown id of type %s was accepted' % step[1])
        elif any(want(c) is None for c in step[1]):
            continue
        elif step[0] == 'compute':
            for c in step[1]:
                agree(rhs.compute_constraint_rhs(c), c, 'within the history')
        else:
            df = rhs.compute_constraint_rhs(step[1])
            check(list(df['set']) == step[1], 'computing a list returned sets %r, asked %r', list(df['set']), step[1])
            for c, got in zip(df['set'], df['rhs']):
                agree(float(got), c, 'computed as a list')
                labels.add('list')
    for c in ref.cons:
        if want(c) is not None:
            agree(rhs.compute_constraint_rhs(c), c, 'after the history')
            agree(rhs.compute_constraint_rhs(c), c, 'computed twice')
    if decided == 0:
        raise Skip('no constraint decided')
    text = repr(case['cons'])
    rich = False
    if "'type': 'X'" in repr(case['eqs']):
        labels.add('nested-function')
    for lab, key in (('group', "'k': 'g'"), ('function', "'type': 'X'"), ('stack', "'type': 'U'"), ('push', 'PUSH'),
                     ('exlez', 'EXLEZ')):
        if key in text:
            labels.add(lab)
            rich = True
    if changed:
        labels.add('update-changes-rhs')
    return {'nontrivial': rich or changed, 'labels': sorted(labels)}


def parts():
    return [Part('rhs', case, run, 12000, 200000)]
