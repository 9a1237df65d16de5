"""C13: nearest-neighbour and local-kernel regressions."""
import numpy as np
from pyhipp import stats
from pyhipp.stats import reduction as R
from pyhipp.stats.regression import KernelRegression1D, KernelRegressionND
from pyhipp.stats import kernel as K
from ..core import Monitor
from ..gen import pick, chance, Frozen
from .c12 import one, ALIAS

RULE = ('random training sets (1-4 features, 1-400 points, clustered or spread, any leaf size and metric) and queries near, inside and far outside; '
        'neighbours are found by exhaustive search and reduced by the textbook formula. Identity is (training set, query set, options).')
METRICS = {'euclidean': lambda d: np.sqrt((d ** 2).sum(-1)), 'chebyshev': lambda d: np.abs(d).max(-1), 'manhattan': lambda d: np.abs(d).sum(-1)}
KIND = {c: k for k, c in dict(count=R.Count, sum=R.Sum, mean=R.Mean, sd=R.StdDev, quantile=R.Quantile, median=R.Median, errorbar=R.Errorbar).items()}


def world(rng):
    d = int(rng.integers(1, 5))
    n = int(pick(rng, [1, 2, 3, 5, 10, 33, 100, 400]))
    scale = 10. ** rng.integers(-2, 3)
    x = rng.normal(size=(n, d)) * scale
    if chance(rng, .3):
        x = x * pick(rng, [1., .01]) + rng.integers(-3, 4, size=(n, d)) * scale
    y = rng.normal(size=n) + pick(rng, [0., 5.])
    w = rng.random(n) + .05 if chance(rng, .5) else None
    q = rng.normal(size=(int(rng.integers(1, 12)), d)) * scale
    if chance(rng, .3):
        q[0] = 50 * scale
    metric = pick(rng, ['euclidean'] * 4 + ['chebyshev', 'manhattan'])
    impl = {}
    if metric != 'euclidean':
        impl['metric'] = metric
    if chance(rng, .4):
        impl['leaf_size'] = int(pick(rng, [1, 2, 5, 100]))
    dist = METRICS[metric](q[:, None] - x[None])
    flat = d == 1 and chance(rng, .5)
    return d, n, scale, x, y, w, q, impl, dist, flat


def kern(rng, scale):
    """(spec, function) : spec as the library takes it, function of distance."""
    k = int(rng.integers(7))
    s = float(scale * pick(rng, [.5, 1., 3.]))
    g = lambda d: np.exp(-.5 * (d / s) ** 2)
    if k == 0:
        return None, None
    if k == 1:
        form = int(rng.integers(4))         # a width as any kind of number
        if form == 1:
            return np.float64(s), g
        if form == 2:
            s = float(np.float32(s))
            return np.float32(s), g
        if form == 3 and s >= 1:
            s = float(round(s))
            return pick(rng, [int(s), np.int64(s)]), g
        return s, g
    if k in (5, 6):
        t = lambda d: (d < s).astype(float)
        return (('tophat', {'radius': s}) if k == 5 else K.Tophat(s)), t
    if k == 2:
        return ('gaussian', {'sigma': s}), g
    if k == 3:
        return K.Gaussian(s), g
    return (lambda d: None, None) if False else (('gaussian', {'sigma': 10 * s}), lambda d: np.exp(-.5 * (d / (10 * s)) ** 2))


def reds(rng, kernelled):
    """Reduction specifications and their (name, kind, kw)."""
    def single():
        nm = pick(rng, list(ALIAS))
        kw = {}
        kind = KIND[ALIAS[nm]]
        if kind == 'quantile':
            kw = {'ps': pick(rng, [.5, [.1, .9], '1sigma'])}
        if kind == 'errorbar':
            kw = {'reduce': pick(rng, ['mean+sd', 'median+1sigma'])}
        fill = 0. if kind in ('count', 'sum') else -1e10
        if kind not in ('count', 'sum') and chance(rng, .5):
            kw['empty_fill'] = fill = pick(rng, [np.nan, 3., 0.])
        form = int(rng.integers(3))
        if form == 0:
            spec, name = (nm, kw), nm
        elif form == 1:
            spec = ALIAS[nm](**kw)
            name = spec.key
        elif not kw:
            spec, name = nm, nm
        else:
            spec, name = (nm, kw), nm
        return spec, name, kind, kw, fill
    if chance(rng, .4):
        s = single()
        return s[0], [s[1:]]
    ss = [single() for _ in range(int(rng.integers(1, 4)))]
    return pick(rng, [[s[0] for s in ss]]), [s[1:] for s in ss]


def compare(T, out, infos, ref, what):
    T.check(len(out['y']) == len(infos), 'number of predictions')
    last = {}
    for i, (name, kind, kw, fill) in enumerate(infos):
        want = np.array([one(kind, yy, ww, kw, fill) for yy, ww in ref], dtype=float)
        if kind == 'sd':
            T.close(np.asarray(out['y'][i], float), want, f'{what}: {kind}', rtol=1e-6, atol=1e-8)
        else:
            T.close(np.asarray(out['y'][i], float), want, f'{what}: {kind} over the wrong neighbours or weights', rtol=1e-8, atol=1e-9, kw=kw)
        last[name] = i
        T.ev(kind)
    for name, i in last.items():
        T.eq(np.asarray(out[f'y_{name}']), np.asarray(out['y'][i]), 'named prediction differs from its position')


def knn(rng, T):
    """k nearest neighbours."""
    d, n, scale, x, y, w, q, impl, dist, flat = world(rng)
    k = int(min(n, pick(rng, [1, 2, 3, 5, 10, n])))
    o = np.argsort(dist, 1)
    ds = np.take_along_axis(dist, o, 1)
    if k < n and np.any(ds[:, k] - ds[:, k - 1] < 1e-8 * scale):
        T.ev('tie_skipped')
        return
    mx = None
    if chance(rng, .5):
        mx = float(pick(rng, [.3, 1., 3., 1e3, 1e-6]) * scale)
        if np.any(np.abs(dist - mx) < 1e-8 * scale):
            return
    spec, f = kern(rng, scale)
    if f is not None and np.any(f(ds[:, :k]).max(1) < 1e-290):
        spec = f = None                     # all weights underflow: no answer is promised
    rspec, infos = reds(rng, f is not None)
    ref = []
    for i in range(len(q)):
        j = o[i, :k]
        if mx is not None:
            j = j[dist[i, j] < mx]
        ww = None if w is None else w[j]
        if f is not None:
            ww = f(dist[i, j]) if ww is None else ww * f(dist[i, j])
        if ww is not None and len(ww) and ww.sum() < 1e-290:
            return
        if ww is not None and np.any(ww == 0.):
            if any(i[1] in ('quantile', 'median', 'errorbar') for i in infos):
                return                      # interpolation over weightless points is not specified
            T.ev('weightless')
        ref.append((y[j], ww))
        T.ev('empty' if len(j) == 0 else 'cut' if len(j) < k else 'full')
    fr = Frozen(x=x, y=y, q=q, **({} if w is None else {'w': w}))
    X, Q = (x[:, 0], q[:, 0]) if flat else (x, q)
    kw = dict(k=k, max_dx=mx, reduce=rspec, kernel=spec, weight=w, impl_kw=impl)
    if chance(rng, .3):
        kw['impl_query_kw'] = {'dualtree': chance(rng, .5), 'breadth_first': chance(rng, .5)}
    cls = pick(rng, [KernelRegressionND, KernelRegression1D, stats.KernelRegressionND])
    T.note(n=n, d=d, k=k, max_dx=mx, reduce=str(rspec), kernel=str(spec), impl=impl)
    out = cls.by_knn(X, y, Q, **kw)
    T.eq(np.asarray(out['x']), q, 'query points returned')
    compare(T, out, infos, ref, 'kNN')
    p = rng.permutation(n)
    out2 = cls.by_knn(X[p], y[p], Q, **{**kw, 'weight': None if w is None else w[p]})
    for a, b in zip(out['y'], out2['y']):
        T.close(np.asarray(a, float), np.asarray(b, float), 'order of the training points matters', rtol=1e-6, atol=1e-7)
    i = int(rng.integers(len(q)))
    out3 = cls.by_knn(X, y, Q[i:i + 1], **kw)
    for a, b in zip(out['y'], out3['y']):
        T.close(np.asarray(b, float)[0], np.asarray(a, float)[i], 'other queries matter', rtol=1e-6, atol=1e-7)
    fr.check(T)
    T.sig('knn', x, q, k, mx)
    T.state('shape', (n, d, k))


def radius(rng, T):
    """All neighbours within a radius."""
    d, n, scale, x, y, w, q, impl, dist, flat = world(rng)
    mx = float(pick(rng, [.1, .5, 1., 3., 30., 1e-6]) * scale)
    default = chance(rng, .15)
    if default:
        mx = float(np.mean([np.std(q[:, i]) for i in range(d)]) / 10)
    if np.any(np.abs(dist - mx) < 1e-8 * scale):
        return
    spec, f = kern(rng, scale)
    rspec, infos = reds(rng, f is not None)
    ref = []
    for i in range(len(q)):
        j = np.flatnonzero(dist[i] <= mx)
        ww = None if w is None else w[j]
        if f is not None:
            ww = f(dist[i, j]) if ww is None else ww * f(dist[i, j])
        if ww is not None and len(ww) and ww.sum() < 1e-290:
            return
        if ww is not None and np.any(ww == 0.):
            if any(i[1] in ('quantile', 'median', 'errorbar') for i in infos):
                return                      # interpolation over weightless points is not specified
            T.ev('weightless')
        ref.append((y[j], ww))
        T.ev('empty' if len(j) == 0 else 'all' if len(j) == n else 'some')
    fr = Frozen(x=x, y=y, q=q, **({} if w is None else {'w': w}))
    X, Q = (x[:, 0], q[:, 0]) if flat else (x, q)
    kw = dict(reduce=rspec, kernel=spec, weight=w, impl_kw=impl)
    if not default:
        kw['max_dx'] = mx
    if chance(rng, .3):
        kw['impl_query_kw'] = {'sort_results': chance(rng, .5)}
    T.note(n=n, d=d, max_dx=mx, default=default, reduce=str(rspec), kernel=str(spec), impl=impl)
    out = KernelRegressionND.by_local_kernel(X, y, Q, **kw)
    T.eq(np.asarray(out['x']), q, 'query points returned')
    compare(T, out, infos, ref, 'radius')
    p = rng.permutation(n)
    out2 = KernelRegressionND.by_local_kernel(X[p], y[p], Q, **{**kw, 'weight': None if w is None else w[p]})
    for a, b in zip(out['y'], out2['y']):
        T.close(np.asarray(a, float), np.asarray(b, float), 'order of the training points matters', rtol=1e-6, atol=1e-7)
    fr.check(T)
    T.sig('radius', x, q, mx)


def fraction(rng, T):
    """Fraction of masked weight among the neighbours."""
    d, n, scale, x, y, w, q, impl, dist, flat = world(rng)
    k = int(min(n, pick(rng, [1, 3, 10, 32, n])))
    o = np.argsort(dist, 1)
    ds = np.take_along_axis(dist, o, 1)
    if k < n and np.any(ds[:, k] - ds[:, k - 1] < 1e-8 * scale):
        return
    mx = float(pick(rng, [.3, 1., 3.]) * scale) if chance(rng, .6) else None
    if mx is not None and np.any(np.abs(dist - mx) < 1e-8 * scale):
        return
    spec, f = kern(rng, scale)
    mask = rng.random(n) < .5
    mc = int(pick(rng, [1, 3, 10]))
    fr = Frozen(x=x, q=q, mask=mask, **({} if w is None else {'w': w}))
    kw = {} if w is None else {'weight': w}
    if k != 32 or chance(rng, .5):
        kw['k'] = k
    elif n < 32:
        kw['k'] = k
    if mc != 10:
        kw['min_count'] = mc
    if chance(rng, .3):
        kw['impl_query_kw'] = {'breadth_first': chance(rng, .5)}
    r = KernelRegressionND.masked_fraction_by_knn(x, mask, q, max_dx=mx, kernel=spec, impl_kw=impl, **kw)
    for i in range(len(q)):
        j = o[i, :k]
        if mx is not None:
            j = j[dist[i, j] < mx]
        ww = (np.ones(n) if w is None else w)[j] * (1. if f is None else f(dist[i, j]))
        tot = ww.sum()
        if len(j) and tot < 1e-9:
            continue
        want = ww[mask[j]].sum() / tot if len(j) else 0.
        T.close(r.values[i], want, 'masked fraction', rtol=1e-8, atol=1e-10, n=n, k=k)
        T.eq(bool(r.invalid[i]), bool(len(j) < mc), 'validity of the masked fraction')
        T.eq(bool(np.ma.getmaskarray(r.values_ma)[i]), bool(len(j) < mc), 'mask of the masked fraction')
        T.close(np.asarray(r.values_ma.data)[i], r.values[i], 'masked array values')
        T.ev('invalid' if len(j) < mc else 'valid')
    fr.check(T)
    T.sig('fraction', x, q, k, mx)


def lattice(rng, T):
    """Distances that are exact in floating point, many of them equal to the limit."""
    n = int(pick(rng, [5, 12, 40]))
    u = 2. ** rng.integers(-6, 7)
    x = rng.permutation(4 * n)[:n] * u
    y = rng.normal(size=n)
    w = rng.random(n) + .05 if chance(rng, .5) else None
    q = (rng.integers(-2, 4 * n + 2, size=int(rng.integers(1, 6)))) * u
    dist = np.abs(q[:, None] - x)
    m = float(u * rng.integers(1, 9))
    red = pick(rng, ['mean', 'sum', 'count', ['count', 'mean']])
    fr = Frozen(x=x, y=y, q=q)
    T.note(x=x, q=q, limit=m, reduce=str(red))
    names = red if isinstance(red, list) else [red]
    infos = [(r, r, {}, 0. if r in ('sum', 'count') else -1e10) for r in names]

    def ref(sel):
        return [(y[j], None if w is None else w[j]) for j in sel]
    impl = {'leaf_size': int(pick(rng, [1, 4, 40]))} if chance(rng, .5) else {}
    at = [dist[i] == m for i in range(len(q))]
    out = KernelRegressionND.by_local_kernel(x, y, q, max_dx=m, reduce=red, weight=w, impl_kw=impl)
    compare(T, out, infos, ref([dist[i] <= m for i in range(len(q))]), 'radius with neighbours at the limit')
    k = int(rng.integers(1, n + 1))
    ok = [i for i in range(len(q)) if k == n or np.sort(dist[i])[k] > np.sort(dist[i])[k - 1]]      # ties: no unique set
    if ok:
        sel = [[j for j in np.argsort(dist[i], kind='stable')[:k] if dist[i, j] < m] for i in ok]
        out = KernelRegressionND.by_knn(x, y, q[ok], k=k, max_dx=m, reduce=red, weight=w, impl_kw=impl)
        compare(T, out, infos, ref([np.array(j, int) for j in sel]), 'kNN with neighbours at the limit')
    fr.check(T)
    T.ev('at_limit', int(np.sum(at)))
    T.sig('lattice', x, q, m, k)


MONITORS = [
    Monitor('lattice', lattice, 1200, 8000, need={'at_limit': 200}),
    Monitor('knn', knn, 1500, 15000, need={'full': 500, 'cut': 100, 'empty': 50, 'mean': 50}),
    Monitor('radius', radius, 1500, 15000, need={'empty': 200, 'some': 200, 'all': 50}),
    Monitor('fraction', fraction, 600, 5000, need={'valid': 100, 'invalid': 100}),
]
