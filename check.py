"""check.py <PROPERTY> [quick|thorough]   |   check.py --replay FILE"""
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
if os.environ.get('PYTHONHASHSEED') != '0' or sys.flags.dont_write_bytecode == 0 \
        or 'site-packages' in sys.executable:
    env = dict(os.environ, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg',
               OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1',
               PYTHONPYCACHEPREFIX='/nonexistent-pycache', SYMX='1')
    os.execve('/opt/venv/bin/python', ['/opt/venv/bin/python', os.path.abspath(__file__)]
              + sys.argv[1:], env)
sys.path.insert(0, HERE)
from symx import runner   # noqa: E402
if __name__ == '__main__':
    if sys.argv[1] == '--setup':
        import sympl
        from symx.z3load import z3
        print('sympl', sympl.__file__, 'z3', z3.get_version_string())
        sys.exit(0)
    import shutil
    import tempfile
    base = '/dev/shm' if os.access('/dev/shm', os.W_OK) else None
    own = 'SYMX_SCRATCH' not in os.environ
    if own:
        os.environ['SYMX_SCRATCH'] = tempfile.mkdtemp(prefix='symx-', dir=base)
    try:
        if sys.argv[1] == '--replay':
            rc = runner.replay_file(sys.argv[2])
        else:
            tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
            seed = int(os.environ.get('VERIF_SEED', '1') or 1)
            rc = runner.main(sys.argv[1], tier, seed)
    finally:
        if own:
            shutil.rmtree(os.environ['SYMX_SCRATCH'], ignore_errors=True)
    sys.exit(rc)
