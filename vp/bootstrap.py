"""Make hypothesis + scipy importable by /opt/venv's python without installing anything outside /verif.

The tooling venv and /opt/venv are both CPython 3.12, so the pure/abi3 packages can be shared.  Only the packages
named below are exposed (never the tooling venv's numpy, which would shadow the one pandas was built against).
"""
import os
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
SITE = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
WHEELS = '/opt/veriftools/wheels'
NAMES = ['hypothesis', '_hypothesis_ftz_detector.py', '_hypothesis_globals.py', 'sortedcontainers', 'scipy',
         'scipy.libs']


def ensure():
    if os.environ.get('VP_NO_VENDOR'):
        return None
    for base in (os.path.join(ROOT, '.vendor'), os.path.join(tempfile.gettempdir(), 'vp_vendor_%d' % os.getuid())):
        try:
            os.makedirs(base, exist_ok=True)
            for n in NAMES:
                src, dst = os.path.join(SITE, n), os.path.join(base, n)
                if not os.path.exists(src):
                    continue
                if not os.path.exists(dst):
                    try:
                        os.symlink(src, dst)
                    except FileExistsError:
                        pass
            if not os.path.exists(os.path.join(base, 'hypothesis')):
                import subprocess
                subprocess.check_call([sys.executable, '-m', 'pip', 'install', '-q', '--no-index', '--no-deps',
                                       '--find-links', WHEELS, '--target', base, 'hypothesis', 'sortedcontainers',
                                       'scipy'])
            sys.path.insert(0, base)
            return base
        except OSError:
            continue
    raise RuntimeError('cannot create a vendor directory')


if __name__ == '__main__':
    print(ensure())
    import hypothesis
    import scipy.optimize
    print('hypothesis', hypothesis.__version__, 'scipy', scipy.__version__)
