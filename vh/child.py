"""Child process: loads one property module, runs its monitors in forked
workers, merges what they observed, writes evidence and the verdict."""
import importlib, json, os, signal, sys, time, traceback, mmap, struct

from . import core

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CPU_BUDGET = 240.          # CPU seconds one single case may consume
TICK = os.sysconf('SC_CLK_TCK')


def cpu_of(pid):
    try:
        with open(f'/proc/{pid}/stat') as f:      # a process we started ourselves
            p = f.read().rsplit(')', 1)[1].split()
        return (int(p[11]) + int(p[12])) / TICK
    except (OSError, IndexError):
        return None


class Worker:
    def __init__(self, mon, shard, T, cases, work):
        self.mon, self.shard, self.T, self.cases = mon, shard, T, cases
        self.out = os.path.join(work, f'r_{mon.name}_{shard}.json')
        self.mem = mmap.mmap(-1, 16)
        self.last, self.cpu0 = None, 0.
        self.pid = os.fork()
        if self.pid == 0:
            self._child()

    def _child(self):
        rc = 3
        try:
            d = os.path.join(os.environ['VH_WORK'], f'w_{self.mon.name}_{self.shard}')
            os.makedirs(d)
            os.chdir(d)
            os.environ['VH_CASEDIR'] = d
            res = {'viol': []}

            def progress(c):
                self.mem[:8] = struct.pack('q', c + 1)
            cov = None
            if os.environ.get('VH_COV'):
                from . import cov
                if os.environ['VH_COV'] == 'args':
                    cov.start_args()
                else:
                    cov.start()
            res['viol'] = core.run_shard(self.mon, self.T, self.cases, progress)
            if cov and os.environ['VH_COV'] == 'args':
                cov.stop_args(f'{self.T.prop}_{self.mon.name}_{self.shard}')
            elif cov:
                res['cov'] = cov.stop()
            res.update(self.T.result())
            with open(self.out, 'w') as f:
                json.dump(res, f)
            rc = 0
        except BaseException:
            traceback.print_exc()
        finally:
            sys.stdout.flush(); sys.stderr.flush()
            os._exit(rc)

    def case(self):
        return struct.unpack('q', self.mem[:8])[0] - 1


def main():
    prop = sys.argv[1]
    seed, tier = int(os.environ['VERIF_SEED']), os.environ['VERIF_TIER']
    work = os.environ['VH_WORK']
    t0 = time.time()
    replay = None
    if '--replay' in sys.argv:
        with open(sys.argv[sys.argv.index('--replay') + 1]) as f:
            replay = json.load(f)
        seed, tier = replay['seed'], replay['tier']
    try:
        mod = importlib.import_module(f'vh.props.{prop.lower()}')
        import pyhipp
    except Exception as e:
        if any(f.filename.startswith('/repo/src/') for f in traceback.extract_tb(e.__traceback__)):
            # the library itself cannot be imported: no call of it can do what it promises
            path = os.path.join(HERE, 'replays', f'{prop}_import_0_s{seed}.json')
            os.makedirs(os.path.dirname(path), exist_ok=True)
            with open(path, 'w') as f:
                json.dump({'property': prop, 'monitor': 'import', 'case': 0, 'seed': seed, 'tier': tier, 'traceback': traceback.format_exc()}, f)
            traceback.print_exc()
            print(f'[import case 0] importing the library fails: {e!r}')
            print(f'VIOLATION property={prop} replay={path}')
            sys.stdout.flush()
            os._exit(1)
        traceback.print_exc()
        print('INCONCLUSIVE: the monitors could not be loaded')
        sys.stdout.flush()
        os._exit(2)
    assert pyhipp.__file__.startswith('/repo/src/'), pyhipp.__file__

    jobs = []
    only = os.environ.get('VH_ONLY')
    for mon in mod.MONITORS:
        if only and mon.name not in only.split(','):
            continue
        n = mon.quick if tier == 'quick' else mon.thorough
        if 'VH_CASES' in os.environ:
            n = int(os.environ['VH_CASES'])
        cases = list(range(n))
        shards = mon.shards
        if replay:
            if mon.name != replay['monitor']:
                continue
            cases, shards = [replay['case']], 1
        for s in range(shards):
            if cases[s::shards]:
                jobs.append((mon, s, cases[s::shards]))

    max_jobs = int(os.environ.get('VH_JOBS', '6'))
    running, done, viols, errors, cov = [], [], [], [], {}
    acc = {m.name: {'events': {}, 'states': {}, 'sigs': set(), 'samples': [], 'checks': 0}
           for m, _, _ in jobs}
    queue = list(jobs)
    while queue or running:
        while queue and len(running) < max_jobs:
            mon, s, cases = queue.pop(0)
            T = core.Tracer(prop, mon.name, seed, tier)
            running.append(Worker(mon, s, T, cases, work))
        time.sleep(0.03)
        for w in list(running):
            pid, st = os.waitpid(w.pid, os.WNOHANG)
            rec = {'property': prop, 'monitor': w.mon.name, 'case': w.case(),
                   'seed': seed, 'tier': tier, 'key': None, 'detail': {},
                   'context': None, 'traceback': None}
            if pid == 0:
                c, cpu = w.case(), cpu_of(w.pid)
                if cpu is None:
                    continue
                if c != w.last:
                    w.last, w.cpu0 = c, cpu
                elif c >= 0 and cpu - w.cpu0 > CPU_BUDGET:
                    os.kill(w.pid, signal.SIGKILL)
                    os.waitpid(w.pid, 0)
                    running.remove(w)
                    viols.append({**rec, 'message':
                        f'no progress: one case used more than {CPU_BUDGET:.0f} CPU seconds'})
                continue
            running.remove(w)
            if os.WIFSIGNALED(st):
                sig = os.WTERMSIG(st)
                if sig in (signal.SIGSEGV, signal.SIGBUS, signal.SIGABRT, signal.SIGILL, signal.SIGFPE):
                    viols.append({**rec, 'message':
                        f'process died of {signal.Signals(sig).name} in compiled code'})
                else:
                    errors.append(f'{w.mon.name}: worker killed by signal {sig}')
                continue
            if os.WEXITSTATUS(st) != 0 or not os.path.exists(w.out):
                errors.append(f'{w.mon.name}: worker failed ({os.WEXITSTATUS(st)})')
                continue
            with open(w.out) as f:
                res = json.load(f)
            viols += res['viol']
            a = acc[w.mon.name]
            for k, n in res['events'].items():
                a['events'][k] = a['events'].get(k, 0) + n
            for k, v in res['states'].items():
                a['states'].setdefault(k, set()).update(v)
            a['sigs'].update(res['sigs'])
            a['checks'] += res['checks']
            a['samples'] += res['samples'] if len(a['samples']) < 2 else []
            for fn, ls in res.get('cov', {}).items():
                cov.setdefault(fn, set()).update(ls)
        if viols and os.environ.get('VH_FAILFAST'):
            for w in running:
                os.kill(w.pid, signal.SIGKILL)
                os.waitpid(w.pid, 0)
            break

    if os.environ.get('VH_COV') == '1':
        with open(f'/tmp/w/cov_{prop}.json', 'w') as f:
            json.dump({k: sorted(v) for k, v in cov.items()}, f)

    # -- known findings
    with open(os.path.join(HERE, 'known_findings.json')) as f:
        known = {(k['property'], k['key']): k['what']
                 for k in json.load(f)['known']}
    hit, new = {}, []
    for v in viols:
        k = (prop, v.get('key'))
        if v.get('key') is not None and k in known:
            hit[k] = known[k]
        else:
            new.append(v)
    for (p, _), what in sorted(hit.items()):
        print(f'KNOWN-FINDING: property={p} {what}')

    # -- inconclusive?
    for mon in {m.name: m for m, _, _ in jobs}.values():
        a = acc[mon.name]
        need = {'cases': 1, **mon.need}
        if replay or 'VH_CASES' in os.environ:
            need = {}
        for k, n in need.items():
            if a['events'].get(k, 0) < n:
                errors.append(f'{mon.name}: observed {a["events"].get(k, 0)} "{k}" events, needs {n}')

    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': sum(a['events'].get('cases', 0) for a in acc.values()),
            'distinct_nontrivial': sum(len(a['sigs']) for a in acc.values()),
            'rule': mod.RULE,
            'samples': [s for a in acc.values() for s in a['samples'][:2]] or ['none'],
            'oracle_comparisons': sum(a['checks'] for a in acc.values()),
            'monitors': {n: {'events': a['events'], 'oracle_comparisons': a['checks'],
                             'distinct_nontrivial_cases': len(a['sigs']),
                             'distinct_states': {k: len(v) for k, v in a['states'].items()}}
                         for n, a in acc.items()},
        },
        'assumptions': getattr(mod, 'ASSUMPTIONS', []),
        'wall_s': round(time.time() - t0, 2),
        'violations': len(new),
    }
    if not replay and not only:
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        with open(os.path.join(HERE, 'evidence', f'{prop}.json'), 'w') as f:
            json.dump(ev, f, indent=1)

    if new:
        d = os.path.join(HERE, 'replays')
        os.makedirs(d, exist_ok=True)
        seen = set()
        for v in new:
            if (v['monitor'], v['message'][:60]) in seen:
                continue
            seen.add((v['monitor'], v['message'][:60]))
            path = os.path.join(d, f"{prop}_{v['monitor']}_{v['case']}_s{seed}.json")
            with open(path, 'w') as f:
                json.dump(v, f, indent=1, default=str)
            print(f"[{v['monitor']} case {v['case']}] {v['message']} {json.dumps(v['detail'], default=str)[:600]}")
            if v['traceback']:
                print('   ' + '\n   '.join(v['traceback'].strip().splitlines()[-6:]))
            print(f'VIOLATION property={prop} replay={path}')
        sys.stdout.flush()
        os._exit(1)
    if errors:
        for e in errors:
            print('INCONCLUSIVE:', e)
        sys.stdout.flush()
        os._exit(2)
    c = ev['coverage']
    print(f"{prop} held: {c['evaluations']} cases, {c['distinct_nontrivial']} distinct non-trivial, "
          f"{c['oracle_comparisons']} oracle comparisons, {ev['wall_s']} s")
    sys.stdout.flush()
    os._exit(0)


main()
