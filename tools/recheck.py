#!/usr/bin/env python3
"""Development aid: run each planted bug's property check against it (in a private
mount namespace) and put the outcome into the table of DESIGN.md.

recheck.py [id ...]   (env LABJ: how many at a time)
"""
import json, os, re, shutil, subprocess, sys, concurrent.futures as cf

LAB, RES = '/tmp/relab', '/verif/tools/seeded_results.json'


def one(i):
    d = f'{LAB}/{i}'
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d + '/verif')
    meta = json.load(open(f'/verif/seeded/{i}/meta.json'))
    try:
        subprocess.run(['cp', '-a', '/repo', f'{d}/repo'], check=True)
        for n in ('run.py', 'vh', 'known_findings.json', 'properties.jsonl'):
            subprocess.run(['cp', '-a', f'/verif/{n}', f'{d}/verif/'], check=True)
        p = subprocess.run(['git', '-C', f'{d}/repo', 'apply', f'/verif/seeded/{i}/patch.diff'], capture_output=True, text=True)
        if p.returncode:
            return i, meta, {'caught': False, 'how': 'PATCH DOES NOT APPLY'}
        sh = f'mount --bind {d}/repo /repo && mount --bind {d}/verif /verif && cd /verif && VH_FAILFAST=1 VERIF_SEED={os.environ.get("VERIF_SEED", "1")} timeout 800 python3 run.py {meta["property"]}'
        x = subprocess.run(['unshare', '-m', 'bash', '-c', sh], capture_output=True, text=True)
        m = re.search(r'^\[(\S+) case (\d+)\] ([^{\n]*)', x.stdout, re.M)
        return i, meta, {'caught': x.returncode == 1 and 'VIOLATION property=' + meta['property'] in x.stdout,
                         'monitor': m and m[1], 'how': m and m[3].strip()[:80], 'rc': x.returncode}
    finally:
        shutil.rmtree(d, ignore_errors=True)


def table(res):
    rows = ['| planted bug | property | needs | caught by |', '|---|---|---|---|']
    for i in sorted(res):
        r = res[i]
        rows.append(f"| {i} | {r['property']} | {r['needs']} | " + (f"`{r['monitor']}`: {r['how']}" if r['caught'] else '**not caught**') + ' |')
    return '\n'.join(rows)


def main():
    res = json.load(open(RES)) if os.path.exists(RES) else {}
    ids = sys.argv[1:] or sorted(os.listdir('/verif/seeded'))
    res = {k: v for k, v in res.items() if os.path.isdir(f'/verif/seeded/{k}')}
    with cf.ThreadPoolExecutor(int(os.environ.get('LABJ', '4'))) as ex:
        for i, meta, r in ex.map(one, ids):
            res[i] = {'property': meta['property'], 'needs': meta['needs'].replace('|', '/'), **r}
            print('caught' if r['caught'] else 'MISSED', i, r.get('how'), flush=True)
            json.dump(res, open(RES, 'w'), indent=1, sort_keys=True)
    s = open('/verif/DESIGN.md').read()
    a, b = '<!-- planted:begin -->', '<!-- planted:end -->'
    if a in s:
        s = s[:s.index(a) + len(a)] + '\n' + table(res) + '\n' + s[s.index(b):]
        open('/verif/DESIGN.md', 'w').write(s)


main()
