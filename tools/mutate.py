"""Development tool: systematic source mutants of nempy, to find what the checks do not notice.

mutate.py list FILE            enumerate mutants (id, line, description)
mutate.py run OUT.jsonl CHECKS N JOBS FILE...   sample N mutants of the files, run the checks (comma separated, in order)
                               against a scratch copy with each, then the repository's tests on the survivors.
Run it from a copy of /verif (the checks rewrite evidence/ and replays/ beside themselves).
"""
import ast
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('MUT_REPO', '/repo')
CMP = {ast.Lt: ['<='], ast.LtE: ['<'], ast.Gt: ['>='], ast.GtE: ['>'], ast.Eq: ['!='], ast.NotEq: ['=='],
       ast.Is: ['is not'], ast.IsNot: ['is'], ast.In: ['not in'], ast.NotIn: ['in']}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*', ast.BitAnd: '|', ast.BitOr: '&'}
WORDS = {'generator': 'load', 'load': 'generator', 'raise_reg': 'lower_reg', 'lower_reg': 'raise_reg', 'left': 'inner',
         'inner': 'left', 'right': 'inner', 'outer': 'inner', '<=': '>=', '>=': '<=', '=': '<=', 'first': 'last',
         'last': 'first', 'from_region': 'to_region', 'to_region': 'from_region', 'min': 'max', 'max': 'min',
         'ramp_up_rate': 'ramp_down_rate', 'ramp_down_rate': 'ramp_up_rate', 'energy': 'raise_reg'}


def mutants(path):
    src = open(path).read()
    tree = ast.parse(src)
    lines = src.split('\n')
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()) + 1)
    raw = src.encode()
    doc = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.Expr,)) and isinstance(n.value, ast.Constant) and isinstance(n.value.value, str):
            doc.add(id(n.value))
    out = []

    def span(n):
        return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset

    def add(n, new, what):
        a, b = span(n)
        out.append((a, b, new, n.lineno, what))

    def text(n):
        a, b = span(n)
        return raw[a:b].decode()

    def visit(n, infn):
        if id(n) in doc:
            return
        if isinstance(n, (ast.FunctionDef,)):
            if n.name.startswith('_test') or n.name in ('_example', ):
                return
            for x in n.body:
                visit(x, True)
            return
        if isinstance(n, ast.Expr) and id(n.value) in doc:
            return
        if isinstance(n, (ast.Raise, ast.Assert, ast.Import, ast.ImportFrom)):
            return
        if infn:
            if isinstance(n, ast.Compare) and len(n.ops) == 1:
                for o in CMP.get(type(n.ops[0]), []):
                    add(n, '%s %s %s' % (text(n.left), o, text(n.comparators[0])), 'compare ' + o)
            if isinstance(n, ast.BinOp) and type(n.op) in BIN:
                add(n, '(%s) %s (%s)' % (text(n.left), BIN[type(n.op)], text(n.right)), 'binop ' + BIN[type(n.op)])
            if isinstance(n, ast.BoolOp):
                o = ' or ' if isinstance(n.op, ast.And) else ' and '
                add(n, o.join('(%s)' % text(v) for v in n.values), 'boolop')
            if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.Invert, ast.USub)):
                add(n, '(%s)' % text(n.operand), 'drop unary')
            if isinstance(n, ast.Constant) and not isinstance(n.value, (str, bytes)) and n.value is not None:
                if isinstance(n.value, bool):
                    add(n, str(not n.value), 'flip bool')
                elif isinstance(n.value, (int, float)):
                    add(n, '(%r)' % (n.value + 1), 'const+1')
            if isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value in WORDS:
                add(n, repr(WORDS[n.value]), 'word %s' % n.value)
            if isinstance(n, ast.List) and len(n.elts) > 1 and all(isinstance(e, ast.Constant) for e in n.elts):
                for i in range(len(n.elts)):
                    add(n, '[' + ', '.join(text(e) for j, e in enumerate(n.elts) if j != i) + ']', 'drop list item %d' % i)
            if isinstance(n, ast.If):
                add(n.test, 'True', 'if True')
                add(n.test, 'False', 'if False')
            if isinstance(n, ast.Call):
                f = text(n.func)
                if f.endswith('where') and len(n.args) == 3:
                    add(n, '%s(%s, %s, %s)' % (f, text(n.args[0]), text(n.args[2]), text(n.args[1])), 'swap where')
                for x, y in (('min', 'max'), ('max', 'min'), ('minimum', 'maximum'), ('maximum', 'minimum'),
                             ('sum', 'max'), ('any', 'all'), ('all', 'any'), ('ceil', 'floor'), ('floor', 'ceil')):
                    if f.split('.')[-1] == x:
                        add(n.func, f[:-len(x)] + y, '%s to %s' % (x, y))
                for k in n.keywords:
                    if k.arg in ('violation_cost', 'ascending', 'keep', 'subset', 'how', 'axis', 'inplace'):
                        pass
                for nm in ('fillna', 'reset_index', 'copy', 'drop_duplicates', 'sort_values', 'abs', 'groupby'):
                    if f.endswith('.' + nm) and isinstance(n.func, ast.Attribute) and nm != 'groupby':
                        add(n, '(%s)' % text(n.func.value), 'drop .' + nm)
            if isinstance(n, (ast.Expr, ast.AugAssign)) or (isinstance(n, ast.Assign) and len(n.targets) == 1 and (
                    isinstance(n.targets[0], (ast.Subscript, ast.Attribute)) or (
                    isinstance(n.targets[0], ast.Name) and n.targets[0].id in {
                        x.id for x in ast.walk(n.value) if isinstance(x, ast.Name)}))):
                add(n, 'pass', 'drop statement')
        for x in ast.iter_child_nodes(n):
            visit(x, infn)
    for n in tree.body:
        visit(n, False)
    res, seen = [], set()
    for a, b, new, line, what in out:
        m = raw[:a] + new.encode() + raw[b:]
        if m in seen or m == raw:
            continue
        seen.add(m)
        try:
            ast.parse(m)
        except SyntaxError:
            continue
        res.append((line, what, raw[a:b].decode()[:80], new[:80], m))
    return res


def tests(copy):
    env = dict(os.environ, PYTHONPATH=copy + '/src', PYTHONDONTWRITEBYTECODE='1')
    r = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', 'tests', 'src', '-q', '--doctest-modules', '-p',
                        'no:cacheprovider', '--timeout=300', '--continue-on-collection-errors', '-x', '--maxfail=400',
                        '--junitxml=' + copy + '/r.xml',
                        '--ignore=tests/test_constraint_equation_calc.py'] +
                       ['--ignore=src/nempy/historical_inputs/%s.py' % f for f in ('constraints', 'loaders',
                                                                                 'rhs_calculator')],
                       cwd=copy, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    out = copy + '/r.json'
    subprocess.run(['python3', '/opt/vp/results.py', out, 'junit:' + copy + '/r.xml'], stdout=subprocess.DEVNULL)
    try:
        got = set(json.load(open(out))['passed'])
    except Exception:
        return False
    return set(json.load(open('/opt/vp/BASELINE.json'))['stable']) <= got


def main():
    if sys.argv[1] == 'list':
        for i, m in enumerate(mutants(sys.argv[2])):
            print(i, *m[:4])
        return
    out, checks, n, jobs, files = sys.argv[2], sys.argv[3].split(','), int(sys.argv[4]), int(sys.argv[5]), sys.argv[6:]
    pool = []
    lo, hi = [int(x) for x in os.environ.get('MUT_LINES', '0-999999').split('-')]
    for f in files:
        pool += [(f,) + m for m in mutants(os.path.join(REPO, f)) if lo <= m[0] <= hi]
    if os.environ.get('MUT_ONLY'):      # retest the survivors recorded in this file
        keep = {(r['file'], r['line'], r['what'], r['old'], r['new']) for r in map(json.loads, open(os.environ['MUT_ONLY']))
                if r['verdict'] == 'SURVIVED' and r.get('tests_pass')}
        pool = [m for m in pool if m[:5] in keep]
    random.Random(int(os.environ.get('MUT_SEED', '1'))).shuffle(pool)
    print(len(pool), 'mutants in the pool', flush=True)
    pool = pool[:n]
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

    def one(m):
        f, line, what, old, new, code = m
        w = tempfile.mkdtemp(prefix='mut_')
        try:
            for d in ('src', 'tests'):
                shutil.copytree(os.path.join(REPO, d), os.path.join(w, d))
            for d in ('pyproject.toml', 'pytest.ini', 'README.md'):
                shutil.copy(os.path.join(REPO, d), w)
            open(os.path.join(w, f), 'wb').write(code)
            verdict = 'SURVIVED'
            for c in checks:
                env = dict(os.environ, VP_REPO=w, VP_WORKERS=os.environ.get('MUT_WORKERS', '1'), VP_SHRINK_S='0')
                try:
                    r = subprocess.run([here + '/run_check.sh', c], env=env, stdout=subprocess.PIPE,
                                       stderr=subprocess.DEVNULL, timeout=1200)
                    rc = r.returncode
                except subprocess.TimeoutExpired:
                    rc = 99
                if rc != 0:
                    verdict = '%s rc=%d' % (c, rc)
                    break
            rec = {'file': f, 'line': line, 'what': what, 'old': old, 'new': new, 'verdict': verdict}
            if verdict == 'SURVIVED':
                rec['tests_pass'] = tests(w)
            with open(out, 'a') as fh:
                fh.write(json.dumps(rec) + '\n')
        finally:
            shutil.rmtree(w, ignore_errors=True)

    with ThreadPoolExecutor(jobs) as ex:
        list(ex.map(one, pool))


if __name__ == '__main__':
    main()
