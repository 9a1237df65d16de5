#!/usr/bin/env python3
"""Development aid: build and try planted bugs in private copies of /repo.

seedlab.py SPEC.py [id ...]   SPEC defines BUGS: [dict(id, prop, needs, breaks,
edits=[(file, old, new)], demo=python source)].  For each bug: patch a scratch
copy, run build, stable tests, demo (patched and not) and the property's check in a
mount namespace where the copies stand in for /repo and /verif; write
/verif/seeded/<id>.  Never touches /repo itself.
"""
import json, os, subprocess, sys, shutil, runpy, concurrent.futures as cf

LAB = '/tmp/lab'
DEMO = '''#!/bin/bash
# exit 0: the behaviour is right; nonzero: it is broken
export PYTHONPATH=/repo/src PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX=/nonexistent/pycache MPLBACKEND=Agg PYTHONHASHSEED=0
export OMP_NUM_THREADS=1
d=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
export HOME="$work" TMPDIR="$work" NUMBA_CACHE_DIR="$work/nb" MPLCONFIGDIR="$work"
cd "$work" && /opt/venv/bin/python -W ignore "$d/demo.py"
'''


def ns(repo, verif, cmd, timeout=1200):
    sh = f'mount --bind {repo} /repo && mount --bind {verif} /verif && {cmd}'
    try:
        p = subprocess.run(['unshare', '-m', 'bash', '-c', sh], capture_output=True, text=True, timeout=timeout)
        return p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired:
        return 99, 'timeout'


def one(b, check_only=False):
    i = b['id']
    d = f'{LAB}/{i}'
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    out = {'id': i, 'prop': b['prop']}
    try:
        subprocess.run(['cp', '-a', '/repo', f'{d}/repo'], check=True)
        os.makedirs(f'{d}/verif')
        for n in ('run.py', 'vh', 'known_findings.json', 'properties.jsonl'):
            subprocess.run(['cp', '-a', f'/verif/{n}', f'{d}/verif/'], check=True)
        os.makedirs(f'{d}/verif/seeded/{i}')
        for f, old, new in b['edits']:
            p = f'{d}/repo/{f if f.startswith("src/") else "src/pyhipp/" + f}'
            s = open(p).read()
            if s.count(old) != 1:
                out['err'] = f'{f}: {s.count(old)} matches of {old!r}'
                return out
            open(p, 'w').write(s.replace(old, new))
        diff = subprocess.run(['git', '-C', f'{d}/repo', 'diff'], capture_output=True, text=True).stdout
        files = [l[6:] for l in diff.splitlines() if l.startswith('--- a/')]
        orig = ''.join(subprocess.run(['git', '-C', '/repo', 'show', f'98fcba9:{f}'], capture_output=True, text=True).stdout for f in files).splitlines()
        gone = [l[1:] for l in diff.splitlines() if l.startswith('-') and not l.startswith('---') and l[1:].strip()]
        if not any(g in orig for g in gone):
            out['err'] = f'no original line is changed: {gone}'
            return out
        sd = f'/verif/seeded/{i}'
        if not check_only:
            os.makedirs(sd, exist_ok=True)
            open(f'{sd}/patch.diff', 'w').write(diff)
            open(f'{sd}/demo.sh', 'w').write(DEMO)
            os.chmod(f'{sd}/demo.sh', 0o755)
            open(f'{sd}/demo.py', 'w').write(b['demo'].lstrip('\n'))
            json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(f'{sd}/meta.json', 'w'), indent=1)
            subprocess.run(['cp', '-a', sd, f'{d}/s'], check=True)
            p = subprocess.run(['bash', f'{d}/s/demo.sh'], cwd='/repo', capture_output=True, text=True, timeout=300)
            out['demo_clean'] = p.returncode
            if p.returncode:
                out['err'] = 'demo fails on the clean tree: ' + (p.stdout + p.stderr)[-700:]
                return out
            rc, o = ns(f'{d}/repo', f'{d}/verif', f'bash /opt/vp/build.sh')
            out['build'] = rc
            if rc:
                out['err'] = o[-500:]
                return out
            rc, o = ns(f'{d}/repo', f'{d}/verif', f'bash /opt/vp/test.sh {d}/t.json')
            r = json.load(open(f'{d}/t.json'))
            base = json.load(open('/opt/vp/BASELINE.json'))['stable']
            passed = set(r['passed'] if 'passed' in r else [k for k, v in r.get('results', r).items() if v in ('passed', 'pass', True)])
            out['tests_lost'] = [t for t in base if t not in passed]
            rc, o = ns(f'{d}/repo', f'{d}/verif', f'cd /repo && bash {d}/s/demo.sh', 300)
            out['demo_bug'] = rc
            out['demo_says'] = o.strip().splitlines()[-1:] if o.strip() else ''
            if not rc:
                out['err'] = 'demo passes on the bug'
                return out
        rc, o = ns(f'{d}/repo', f'{d}/verif', f'cd /verif && VERIF_SEED=1 VERIF_TIER=quick python3 run.py {b["prop"]}')
        out['caught'] = rc == 1 and f'VIOLATION property={b["prop"]}' in o
        out['rc'] = rc
        ls = [l for l in o.splitlines() if l.startswith('[')]
        out['how'] = ls[:2] if ls else o[-400:]
        return out
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    bugs = runpy.run_path(sys.argv[1])['BUGS']
    args = sys.argv[2:]
    co = '--check' in args
    ids = [a for a in args if not a.startswith('-')]
    if ids:
        bugs = [b for b in bugs if b['id'] in ids]
    with cf.ThreadPoolExecutor(int(os.environ.get('LABJ', '3'))) as ex:
        for f in cf.as_completed([ex.submit(one, b, co) for b in bugs]):
            r = f.result()
            ok = r.get('caught') and not r.get('tests_lost') and not r.get('err')
            print(('CAUGHT ' if ok else 'MISSED ' if 'caught' in r and not r.get('tests_lost') else 'BAD    ') + r['id'], '' if ok and not os.environ.get('V') else json.dumps(r), (r.get('how') or [''])[0][:160] if ok else '', flush=True)


main()
