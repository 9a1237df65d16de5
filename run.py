#!/usr/bin/env python3
"""run.py <PROPERTY> [--replay FILE] : run the monitors of one property against /repo.

Exit 0: held on everything observed.  1: a VIOLATION line was printed.
2: inconclusive (a monitor was not reached, or the harness itself failed).
The work is done in a fresh interpreter of the project's own environment
(vh/child.py); this parent only prepares a scratch directory and enforces a
wall-clock watchdog whose firing is inconclusive.
"""
import os, sys, subprocess, tempfile, shutil, signal

HERE = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python'


def main():
    tier = os.environ.get('VERIF_TIER', 'quick')
    args = list(sys.argv[1:])
    if '--tier' in args:
        i = args.index('--tier')
        tier = args[i + 1]
        del args[i:i + 2]
    work = tempfile.mkdtemp(prefix='vh_')
    env = {
        'PATH': os.environ.get('PATH', '/usr/bin:/bin'), 'LANG': 'C.UTF-8',
        'HOME': work, 'TMPDIR': work, 'MPLCONFIGDIR': work, 'VH_WORK': work,
        'PYTHONPATH': HERE + ':/repo/src', 'PYTHONDONTWRITEBYTECODE': '1',
        'PYTHONPYCACHEPREFIX': '/nonexistent/pycache', 'MPLBACKEND': 'Agg',
        'PYTHONHASHSEED': '0', 'OMP_NUM_THREADS': '1', 'OPENBLAS_NUM_THREADS': '1',
        'NUMBA_NUM_THREADS': '2', 'NUMBA_CACHE_DIR': os.path.join(work, 'nb'),
        'XDG_CACHE_HOME': work, 'XDG_CONFIG_HOME': work,
        'PYTHONFAULTHANDLER': '1', 'HDF5_USE_FILE_LOCKING': 'FALSE',
        'VERIF_SEED': os.environ.get('VERIF_SEED', '1'), 'VERIF_TIER': tier,
    }
    # Fresh and freed heap blocks carry a pattern, so that reading them shows.
    env['MALLOC_PERTURB_'] = '165'
    if args and args[0] == 'C26':
        env['NUMBA_BOUNDSCHECK'] = '1'
    for k in ('VH_CASES', 'VH_ONLY', 'VH_COV', 'VH_JOBS', 'VH_FAILFAST'):
        if k in os.environ:
            env[k] = os.environ[k]
    limit = 840 if tier == 'quick' else 4 * 3600
    try:
        p = subprocess.Popen([PY, '-m', 'vh.child', *args], env=env, cwd=work,
                             start_new_session=True)
        try:
            rc = p.wait(timeout=limit)
        except subprocess.TimeoutExpired:
            print('INCONCLUSIVE: wall-clock watchdog fired', flush=True)
            rc = 2
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc if rc in (0, 1) else 2)


main()
