import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import bootstrap
bootstrap.ensure()
import core

if __name__ == '__main__':
    a = sys.argv[1:]
    if a and a[0] == '--selftest':
        core.import_nempy()
        import hypothesis, scipy.optimize, glob
        for f in sorted(glob.glob(os.path.join(core.HERE, 'checks', 'c[0-9]*.py'))):
            core.load_check(os.path.basename(f)[:-3])
        print('selftest ok')
        sys.exit(0)
    replay = a[a.index('--replay') + 1] if '--replay' in a else None
    try:
        rc = core.main_check(a[0], replay)
    except Exception:
        import traceback
        traceback.print_exc()
        rc = 3
    sys.stdout.flush()
    sys.exit(rc)
