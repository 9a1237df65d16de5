"""Monitor engine: seeded cases, event counters, verdicts, replay files."""
from __future__ import annotations
import hashlib, json, os, traceback, warnings
import numpy as np


class Violation(Exception):
    def __init__(self, msg, key=None, **detail):
        super().__init__(msg)
        self.msg, self.key, self.detail = msg, key, detail


class Monitor:
    """One oracle with the workload that feeds it.

    fn(rng, T): run case number T.case; all randomness comes from rng.
    quick/thorough: number of cases.  shards: parallel processes.
    need: {event: minimum count} below which the run is inconclusive.
    """

    def __init__(self, name, fn, quick, thorough, shards=1, need=None,
                 setup=None, about=''):
        self.name, self.fn, self.quick, self.thorough = name, fn, quick, thorough
        self.shards, self.need, self.setup = shards, need or {}, setup
        self.about = about or (fn.__doc__ or '').strip()


class Tracer:
    """What a case may say: events, distinct states, verdicts."""

    def __init__(self, prop, monitor, seed, tier):
        self.prop, self.monitor, self.seed, self.tier = prop, monitor, seed, tier
        self.events, self.states, self.sigs = {}, {}, set()
        self.samples, self.case, self.context = [], -1, None
        self.checks = 0

    # -- observation
    def ev(self, kind, n=1):
        self.events[kind] = self.events.get(kind, 0) + int(n)

    def state(self, kind, val):
        self.states.setdefault(kind, set()).add(_sig(val))

    def sig(self, *val):
        """Identity of a non-trivial case."""
        self.sigs.add(_sig(val))

    def note(self, **kw):
        """Describe the present case (goes to samples and replay files)."""
        self.context = {k: _short(v) for k, v in kw.items()}
        if len(self.samples) < 3 or self.samples[-1]['case'] == self.case:
            s = {'monitor': self.monitor, 'case': self.case, **self.context}
            if self.samples and self.samples[-1]['case'] == self.case:
                self.samples[-1] = s
            else:
                self.samples.append(s)

    # -- verdicts
    def fail(self, msg, key=None, **detail):
        raise Violation(msg, key, **{k: _short(v) for k, v in detail.items()})

    def check(self, cond, msg, key=None, **detail):
        self.checks += 1
        if not bool(cond):
            self.fail(msg, key, **detail)

    def eq(self, got, want, msg, key=None, **detail):
        """Exact equality of nested plain data and arrays (NaN equals NaN)."""
        self.checks += 1
        if not same(got, want):
            self.fail(msg, key, **{**detail, 'got': got, 'want': want})

    def close(self, got, want, msg, rtol=1e-9, atol=0., key=None, **detail):
        self.checks += 1
        g, w = np.asarray(got), np.asarray(want)
        if g.shape != w.shape:
            self.fail(msg + f' [shape {g.shape} != {w.shape}]', key,
                      **{**detail, 'got': got, 'want': want})
        g = g.astype(complex if g.dtype.kind == 'c' or w.dtype.kind == 'c' else float)
        w = w.astype(g.dtype)
        with np.errstate(all='ignore'):
            ok = (np.abs(g - w) <= atol + rtol * np.abs(w)) | (g == w) \
                | (np.isnan(g) & np.isnan(w))
        if not np.all(ok):
            i = np.argwhere(~np.atleast_1d(ok))[0].tolist() if g.ndim else []
            self.fail(msg, key, **{
                **detail, 'where': i, 'got': g[tuple(i)], 'want': w[tuple(i)],
                'n_bad': int((~ok).sum()), 'n_values': int(np.size(ok))})

    def raises(self, exc, fn, msg, key=None, **detail):
        self.checks += 1
        try:
            r = fn()
        except exc as e:
            return e
        except Exception as e:
            self.fail(msg + f' [raised {type(e).__name__}: {e}]', key, **detail)
        self.fail(msg + ' [did not raise]', key, **{**detail, 'got': r})

    def result(self):
        return {'events': self.events, 'checks': self.checks,
                'states': {k: sorted(v) for k, v in self.states.items()},
                'sigs': sorted(self.sigs), 'samples': self.samples}


def same(a, b):
    if isinstance(a, (np.ndarray, np.generic)) or isinstance(b, (np.ndarray, np.generic)):
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape:
            return False
        if a.dtype.names or b.dtype.names:
            return a.dtype == b.dtype and a.tobytes() == b.tobytes()
        try:
            return bool(np.array_equal(a, b, equal_nan=True))
        except TypeError:
            return bool(np.array_equal(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) \
            and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, float) and isinstance(b, float) and a != a and b != b:
        return True
    try:
        return bool(a == b)
    except Exception:
        return False


def _sig(v):
    return hashlib.blake2b(repr(_short(v, 2000)).encode(), digest_size=6).hexdigest()


def _short(v, n=400):
    if isinstance(v, np.ndarray):
        v = f'{v.dtype}{v.shape}:' + np.array2string(v, threshold=24, precision=17).replace('\n', ' ')
    elif isinstance(v, np.generic):
        v = v.item() if v.dtype.kind in 'biuf' else repr(v)
    elif isinstance(v, dict):
        return {str(k): _short(x, n) for k, x in list(v.items())[:30]}
    elif isinstance(v, (list, tuple)):
        return [_short(x, n) for x in list(v)[:40]]
    if v is None or isinstance(v, (bool, int)):
        return v
    if isinstance(v, float):
        return v if np.isfinite(v) else repr(v)
    s = v if isinstance(v, str) else repr(v)
    return s if len(s) <= n else s[:n] + '...'


def case_rng(seed, monitor, case):
    h = int.from_bytes(hashlib.blake2b(monitor.encode(), digest_size=4).digest(), 'big')
    return np.random.default_rng([seed, h, case])


def run_shard(mon, T, cases, progress, max_viol=4):
    """Run the given cases; return the list of violation records."""
    out = []
    if mon.setup is not None:
        mon.setup()
    for c in cases:
        progress(c)
        T.case, T.context = c, None
        rng = case_rng(T.seed, mon.name, c)
        try:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                mon.fn(rng, T)
            T.ev('cases')
        except Violation as e:
            out.append(_record(mon, T, c, e.msg, e.key, e.detail, None))
        except Exception as e:
            out.append(_record(mon, T, c, f'unexpected {type(e).__name__}: {e}',
                               None, {}, traceback.format_exc()))
        if len(out) >= max_viol:
            break
    return out


def _record(mon, T, c, msg, key, detail, tb):
    return {'property': T.prop, 'monitor': mon.name, 'case': c, 'seed': T.seed,
            'tier': T.tier, 'message': str(msg)[:600], 'key': key,
            'detail': detail, 'context': T.context, 'traceback': tb}
