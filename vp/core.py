"""Runner shared by every property check: generation, sharding, counting, shrinking, replay, evidence."""
import hashlib
import importlib
import json
import os
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = os.environ.get('VP_REPO', '/repo')


class Violation(Exception):
    """The property is broken on this case."""


class HarnessError(Exception):
    """The machinery (not nempy) could not decide this case."""


class Skip(Exception):
    """The case is outside what the oracle can decide (counted, never silently)."""


def check(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


class Part:
    """One generated-input family of a check.

    strategy: () -> hypothesis strategy of JSON-able cases;  run: case -> {'nontrivial': bool, 'labels': [...]}
    """

    def __init__(self, name, strategy, run, quick, thorough, known=None):
        self.name, self.strategy, self.run = name, strategy, run
        self.quick, self.thorough = quick, thorough


def canon(case):
    return json.dumps(case, sort_keys=True, default=_default)


def _default(o):
    import numpy as np
    if isinstance(o, np.integer):
        return int(o)
    if isinstance(o, np.floating):
        return float(o)
    if isinstance(o, np.bool_):
        return bool(o)
    raise TypeError(repr(o))


# --------------------------------------------------------------------------------------------------------------
# Importing the code under test: always from source, never from a possibly stale .pyc.

def import_nempy():
    import importlib.machinery as mach

    class FreshLoader(mach.SourceFileLoader):
        def path_stats(self, path):
            raise OSError('no bytecode caching for the code under test')

        def set_data(self, *a, **k):
            pass

    class Finder:
        @staticmethod
        def find_spec(fullname, path=None, target=None):
            if fullname != 'nempy' and not fullname.startswith('nempy.'):
                return None
            rel = os.path.join(REPO, 'src', *fullname.split('.'))
            if os.path.isdir(rel):
                f = os.path.join(rel, '__init__.py')
                loader = FreshLoader(fullname, f)
                return importlib.util.spec_from_file_location(fullname, f, loader=loader,
                                                              submodule_search_locations=[rel])
            if os.path.isfile(rel + '.py'):
                return importlib.util.spec_from_file_location(fullname, rel + '.py',
                                                              loader=FreshLoader(fullname, rel + '.py'))
            return None

    import importlib.util
    if not any(getattr(f, '__name__', '') == 'Finder' for f in sys.meta_path):
        sys.meta_path.insert(0, Finder)
    import nempy
    assert os.path.realpath(nempy.__file__).startswith(os.path.realpath(REPO)), nempy.__file__
    import warnings
    warnings.simplefilter('ignore')
    import pandas as pd
    pd.options.mode.chained_assignment = None


def load_check(pid):
    return importlib.import_module('checks.' + pid.lower())


# --------------------------------------------------------------------------------------------------------------

class Silence:
    """Swallow nempy's own progress prints (and CBC's), so stdout carries only check results."""

    def __enter__(self):
        sys.stdout.flush()
        self.saved = os.dup(1)
        self.null = os.open(os.devnull, os.O_WRONLY)
        os.dup2(self.null, 1)
        return self

    def __exit__(self, *a):
        sys.stdout.flush()
        os.dup2(self.saved, 1)
        os.close(self.saved)
        os.close(self.null)


def run_case(part, case):
    """-> ('ok', info) | ('violation', msg) | ('skip', why) ; HarnessError propagates."""
    try:
        info = part.run(case)
        return 'ok', info
    except Violation as e:
        return 'violation', str(e)
    except Skip as e:
        return 'skip', str(e)
    except (HarnessError, MemoryError, KeyboardInterrupt):
        raise
    except Exception as e:  # the code under test raised on a valid input (or returned something unusable)
        tb = traceback.extract_tb(e.__traceback__)
        where = [f for f in tb if '/nempy/' in f.filename.replace(REPO, '')]
        loc = where[-1] if where else tb[-1]
        return 'violation', 'unexpected %s: %s (at %s:%s)' % (type(e).__name__, str(e)[:300],
                                                             os.path.basename(loc.filename), loc.name)


def derive_seed(*parts):
    return int(hashlib.sha256(':'.join(map(str, parts)).encode()).hexdigest()[:12], 16)


def worker(mod, parts, wid, nworkers, seed, tier, scratch, deadline):
    import hypothesis
    from hypothesis import settings, HealthCheck, Phase
    stats = {'parts': {}, 'harness_error': None, 'violation': None}
    os.chdir(scratch)

    def flush():
        tmp = os.path.join(scratch, 'stats_%d.tmp' % wid)
        with open(tmp, 'w') as f:
            json.dump(stats, f, default=_default)
        os.replace(tmp, os.path.join(scratch, 'stats_%d.json' % wid))

    for part in parts:
        total = 2 * part.quick if tier == 'quick' else part.thorough
        total = max(1, int(total * float(os.environ.get('VP_SCALE', '1'))))
        n = total // nworkers + (1 if wid < total % nworkers else 0)
        st = {'evaluations': 0, 'nontrivial': 0, 'hashes': [], 'labels': {}, 'skips': {}, 'samples': [],
              'timed_out': 0, 'requested': n}
        stats['parts'][part.name] = st
        if n == 0:
            continue
        best = {'size': None}
        hashes = set()

        def body(case):
            if time.time() > deadline and best['size'] is None:
                st['timed_out'] += 1
                return
            key = hashlib.sha1(canon(case).encode()).hexdigest()[:14]
            with open(os.path.join(scratch, 'current_%d.json' % wid), 'w') as f:
                f.write(canon({'part': part.name, 'case': case}))
            kind, info = run_case(part, case)
            st['evaluations'] += 1
            if kind == 'violation':
                size = len(canon(case))
                if best['size'] is None or size < best['size']:
                    best['size'] = size
                    rec = {'part': part.name, 'case': case, 'message': info}
                    tmp = os.path.join(scratch, 'fail_%d.tmp' % wid)
                    with open(tmp, 'w') as f:
                        json.dump(rec, f, default=_default)
                    os.replace(tmp, os.path.join(scratch, 'fail_%d.json' % wid))
                raise Violation(info.split(':')[0])
            if kind == 'skip':
                st['skips'][info] = st['skips'].get(info, 0) + 1
                return
            for lab in (info or {}).get('labels', []):
                st['labels'][lab] = st['labels'].get(lab, 0) + 1
            if (info or {}).get('nontrivial'):
                if key not in hashes:
                    hashes.add(key)
                    st['nontrivial'] += 1
                    if len(st['samples']) < 2:
                        st['samples'].append(case)
            if st['evaluations'] % 20 == 0:
                st['hashes'] = sorted(hashes)
                flush()

        test = settings(max_examples=n, database=None, deadline=None, suppress_health_check=list(HealthCheck),
                        phases=(Phase.generate, Phase.shrink), report_multiple_bugs=False, print_blob=False)(
            hypothesis.seed(derive_seed(seed, mod.ID, part.name, wid))(hypothesis.given(part.strategy())(body)))
        try:
            test()
        except Violation:
            stats['violation'] = True
            st['hashes'] = sorted(hashes)
            flush()
            return
        except HarnessError as e:
            stats['harness_error'] = 'part %s: %s' % (part.name, traceback.format_exc()[-1500:])
            flush()
            return
        except Exception:
            if best['size'] is not None:   # e.g. hypothesis Flaky wrapping a recorded violation
                stats['violation'] = True
            else:
                stats['harness_error'] = 'part %s: %s' % (part.name, traceback.format_exc()[-3000:])
            st['hashes'] = sorted(hashes)
            flush()
            return
        st['hashes'] = sorted(hashes)
        flush()
    stats['done'] = True
    flush()


def known_findings(pid):
    path = os.path.join(ROOT, 'known_findings.json')
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [k for k in json.load(f)['findings'] if k['property'] == pid]


def write_replay(pid, rec):
    d = os.path.join(ROOT, 'replays')
    os.makedirs(d, exist_ok=True)
    h = hashlib.sha1(canon(rec['case']).encode()).hexdigest()[:10]
    path = os.path.join(d, '%s-%s.json' % (pid, h))
    with open(path, 'w') as f:
        json.dump(dict(rec, property=pid), f, indent=1, sort_keys=True, default=_default)
    return path


def rerun(parts, rec):
    for p in parts:
        if p.name == rec['part']:
            return run_case(p, rec['case'])
    raise HarnessError('no part %s' % rec['part'])


def main_check(pid, replay=None):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    tier = os.environ.get('VERIF_TIER', 'quick') or 'quick'
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    import_nempy()
    mod = load_check(pid)
    parts = mod.parts()
    only = os.environ.get('VP_PARTS')
    if only:
        parts = [p for p in parts if p.name in only.split(',')]
    if replay:
        with open(replay) as f:
            rec = json.load(f)
        with Silence():
            kind, info = rerun(parts, rec)
        print(kind, info)
        if kind == 'violation':
            print('VIOLATION property=%s replay=%s' % (pid, replay))
            return 1
        return 0

    scratch = tempfile.mkdtemp(prefix='vp_%s_' % pid)
    try:
        return _main_check(mod, pid, parts, seed, tier, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def _main_check(mod, pid, parts, seed, tier, scratch, t0):
    cov = {}
    findings = []
    # 1. regression tier: previously found and shrunk inputs, replayed first.
    corpus = os.path.join(ROOT, 'corpus', pid)
    corpus_n = 0
    first_fail = None
    if os.path.isdir(corpus):
        for name in sorted(os.listdir(corpus)):
            with open(os.path.join(corpus, name)) as f:
                rec = json.load(f)
            with Silence():
                kind, info = rerun(parts, rec)
            corpus_n += 1
            if kind == 'violation' and first_fail is None:
                first_fail = dict(rec, message=info)
    # 2. known findings: still reproduce?  (they are excluded from the generators by construction)
    for k in known_findings(pid):
        if 'case' not in k:
            continue
        with Silence():
            kind, info = rerun(getattr(mod, 'finding_parts', mod.parts)(), k)
        if kind == 'violation':
            findings.append(k)
            print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
        else:
            print('note: known finding no longer reproduces: %s' % k['what'])
    # 3. generated search.
    nworkers = int(os.environ.get('VP_WORKERS', '8'))
    soft = float(os.environ.get('VP_SOFT_S', getattr(mod, 'SOFT_S', 330) if tier == 'quick' else 3000))
    shrink_s = float(os.environ.get('VP_SHRINK_S', 60 if tier == 'quick' else 180))
    deadline = time.time() + soft
    pids = {}
    crashes = []
    merged = None
    if first_fail is None:
        sys.stdout.flush()
        for w in range(nworkers):
            child = os.fork()
            if child == 0:
                code = 0
                try:
                    os.setpgid(0, 0)
                    null = os.open(os.devnull, os.O_WRONLY)
                    os.dup2(null, 1)
                    errf = os.open(os.path.join(scratch, 'err_%d' % w), os.O_WRONLY | os.O_CREAT)
                    os.dup2(errf, 2)
                    wd = os.path.join(scratch, 'w%d' % w)
                    os.makedirs(wd)
                    tempfile.tempdir = wd
                    os.environ['TMPDIR'] = wd
                    worker(mod, parts, w, nworkers, seed, tier, scratch, deadline)
                except BaseException:
                    traceback.print_exc()
                    code = 7
                finally:
                    os._exit(code)
            pids[child] = w
        first_seen = None
        while pids:
            try:
                p, status = os.waitpid(-1, os.WNOHANG)
            except ChildProcessError:
                break
            if p:
                w = pids.pop(p, None)
                if w is not None and status != 0:
                    crashes.append((w, status))
                continue
            time.sleep(0.05)
            fails = [f for f in os.listdir(scratch) if f.startswith('fail_') and f.endswith('.json')]
            if fails and first_seen is None:
                first_seen = time.time()
            kill = False
            if first_seen is not None and time.time() - first_seen > shrink_s:
                kill = True
            if time.time() > deadline + 240:
                kill = True
            if kill:
                for c in list(pids):
                    try:
                        os.killpg(c, signal.SIGKILL)
                    except ProcessLookupError:
                        pass
                for c in list(pids):
                    try:
                        os.waitpid(c, 0)
                    except ChildProcessError:
                        pass
                    pids.pop(c)
    # merge
    evaluations, labels, skips, samples = corpus_n, {}, {}, []
    distinct = set()
    timed_out = 0
    per_part = {}
    herrs = []
    for w in range(nworkers):
        f = os.path.join(scratch, 'stats_%d.json' % w)
        if not os.path.exists(f):
            continue
        with open(f) as fh:
            s = json.load(fh)
        if s.get('harness_error'):
            herrs.append(s['harness_error'])
        for name, st in s['parts'].items():
            evaluations += st['evaluations']
            pp = per_part.setdefault(name, {'evaluations': 0, 'distinct_nontrivial': 0})
            pp['evaluations'] += st['evaluations']
            for h in st['hashes']:
                if (name, h) not in distinct:
                    distinct.add((name, h))
                    pp['distinct_nontrivial'] += 1
            for k, v in st['labels'].items():
                labels[name + '/' + k] = labels.get(name + '/' + k, 0) + v
            for k, v in st['skips'].items():
                skips[name + '/' + k] = skips.get(name + '/' + k, 0) + v
            if sum(1 for x in samples if x['part'] == name) < 2:
                samples += [{'part': name, 'case': c} for c in st['samples'][:1]]
            timed_out += st['timed_out']
    recs = []
    for w in range(nworkers):
        f = os.path.join(scratch, 'fail_%d.json' % w)
        if os.path.exists(f):
            with open(f) as fh:
                recs.append(json.load(fh))
    if first_fail is not None:
        recs = [first_fail]
    recs.sort(key=lambda r: len(canon(r['case'])))
    violations = 1 if recs else 0
    evidence = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': evaluations, 'distinct_nontrivial': len(distinct), 'rule': mod.RULE,
            'samples': [_trim(s) for s in samples[:6]],
            'labels': dict(sorted(labels.items())), 'per_part': per_part, 'undecided_cases': skips,
            'corpus_replayed': corpus_n, 'not_run_time_budget': timed_out,
            'worker_crashes': len(crashes), 'workers': nworkers,
        },
        'assumptions': getattr(mod, 'ASSUMPTIONS', []),
        'wall_s': round(time.time() - t0, 2), 'violations': violations,
    }
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', pid + '.json'), 'w') as f:
        json.dump(evidence, f, indent=1, default=_default)
    print('%s tier=%s seed=%d evaluations=%d distinct_nontrivial=%d undecided=%d not_run=%d wall=%.1fs' % (
        pid, tier, seed, evaluations, len(distinct), sum(skips.values()), timed_out, time.time() - t0))
    if recs:
        path = write_replay(pid, recs[0])
        print('  part=%s: %s' % (recs[0]['part'], recs[0]['message'][:600]))
        print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    if herrs:
        print('HARNESS ERROR (no verdict): ' + herrs[0])
        return 3
    if crashes:
        # A worker died (solver crash or memory): its remaining cases were not explored.
        for w, status in crashes:
            try:
                with open(os.path.join(scratch, 'err_%d' % w)) as fh:
                    print('worker %d ended with status %d: %s' % (w, status, fh.read()[-500:]))
                keep = os.path.join(ROOT, 'replays', 'crash-%s-%d.json' % (mod.ID, w))
                os.makedirs(os.path.dirname(keep), exist_ok=True)
                with open(os.path.join(scratch, 'current_%d.json' % w)) as fh, open(keep, 'w') as to:
                    to.write(fh.read())
                print('  its last case is kept in %s' % keep)
            except OSError:
                pass
        if len(crashes) > nworkers // 2:
            print('HARNESS ERROR (no verdict): most workers died')
            return 3
    if evaluations == 0:
        print('HARNESS ERROR (no verdict): nothing was generated')
        return 3
    return 0


def _trim(s):
    t = canon(s)
    return s if len(t) < 6000 else {'part': s.get('part'), 'case_truncated': t[:6000]}
