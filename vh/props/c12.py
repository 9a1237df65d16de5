"""C12: reductions and summaries."""
import numpy as np
from pyhipp import stats
from pyhipp.stats import reduction as R
from pyhipp.stats.summary import SummaryFloatArray1D
from ..core import Monitor, same
from ..gen import pick, chance, strided, Frozen

RULE = ('1-D and row-wise 2-D samples of integer, float and boolean dtype with optional weights and masks (incl. empty selections and masked-out NaN/inf); '
        'reference is the textbook formula in exact-ish long double arithmetic per row. Identity is (reduction, data).')
PS = {'1sigma': (0.16, 0.84), '2sigma': (0.025, 0.975), '3sigma': (0.005, 0.995),
      'median+1sigma': (0.16, 0.5, 0.84), 'median+2sigma': (0.025, 0.5, 0.975), 'median+3sigma': (0.005, 0.5, 0.995),
      'lower_3sigmas': (0.68, 0.95, 0.99), 'upper_3sigmas': (0.01, 0.05, 0.32)}
ALIAS = {'count': R.Count, 'cnt': R.Count, 'sum': R.Sum, 'mean': R.Mean, 'std_dev': R.StdDev, 'std': R.StdDev,
         'sd': R.StdDev, 'quantile': R.Quantile, 'qs': R.Quantile, 'median': R.Median, 'errorbar': R.Errorbar}


def quant(x, p):
    """Linearly interpolated order statistic."""
    x = sorted(float(v) for v in x)
    h = (len(x) - 1) * p
    i = min(int(np.floor(h)), max(len(x) - 2, 0))
    if len(x) == 1:
        return x[0]
    return x[i] + (h - i) * (x[i + 1] - x[i])


def wquant(x, w, p, sort=True):
    """Inverse of the weighted cumulative distribution, linear between samples."""
    pairs = list(zip(map(float, x), map(float, w)))
    if sort:
        pairs.sort()
    tot = sum(t[1] for t in pairs)
    c, out = 0., []
    for v, ww in pairs:
        c += ww / tot
        out.append((c, v))
    if p <= out[0][0]:
        return out[0][1]
    for (c0, v0), (c1, v1) in zip(out, out[1:]):
        if c0 <= p <= c1:
            return v0 + (v1 - v0) * (p - c0) / (c1 - c0)
    return out[-1][1]


def one(kind, x, w, kw, fill):
    """Reference of one reduction on one selected 1-D sample."""
    x = np.asarray(x, dtype=np.longdouble)
    if w is not None:
        w = np.asarray(w, dtype=np.longdouble)
    n = len(x)
    if kind == 'count':
        return float(n)
    if kind == 'sum':
        return float(np.sum(x if w is None else x * w))
    if kind in ('quantile',):
        ps = kw['ps']
        ps = PS[ps] if isinstance(ps, str) else ps
        f = (lambda p: fill) if n == 0 else (lambda p: quant(x, p)) if w is None else (lambda p: wquant(x, w, p, kw.get('sort', True)))
        return f(ps) if np.ndim(ps) == 0 else [f(p) for p in ps]
    if kind == 'median':
        return fill if n == 0 else quant(x, .5) if w is None else wquant(x, w, .5, kw.get('sort', True))
    if kind == 'errorbar':
        t = kw.get('reduce', 'median+1sigma')
        if t == 'mean+sd':
            m, s = one('mean', x, w, {}, fill), one('sd', x, w, {}, fill)
            return [m, s, s]
        lo, med, hi = one('quantile', x, w, {'ps': t}, fill)
        return [med, med - lo, hi - med]
    if n == 0:
        return fill
    ww = np.ones(n, np.longdouble) if w is None else w
    m = np.sum(ww * x) / np.sum(ww)
    if kind == 'mean':
        return float(m)
    return float(np.sqrt(np.sum(ww * (x - m) ** 2) / np.sum(ww)))


def data(rng, distinct=True):
    two = chance(rng, .5)
    n = int(pick(rng, [1, 1, 2, 3, 4, 5, 8, 13, 40, 200]))
    if chance(rng, .07):
        n = 0
    shape = (int(rng.integers(1, 6)), n) if two else (n,)
    k = pick(rng, ['f', 'f', 'f', 'big', 'i', 'f4', 'ties'])
    if k == 'i':
        x = np.array([rng.permutation(np.arange(-3 * n, 3 * n))[:n] for _ in range(shape[0] if two else 1)], dtype='i8')
        x = x.reshape(shape)
    elif k == 'ties':
        x = rng.integers(-3, 4, size=shape).astype(pick(rng, ['f8', 'i4', '?', 'u1']))
    else:
        x = rng.normal(size=shape) * (1. if k != 'big' else 1e4) + pick(rng, [0., 0., 10., 1e3])
        if k == 'f4':
            x = x.astype('f4')
    w = m = None
    if chance(rng, .5):
        w = rng.random(shape) + .01
        if chance(rng, .2):
            w = rng.integers(1, 5, size=shape)
    if chance(rng, .5):
        m = rng.random(shape) < pick(rng, [.1, .5, .9])
    if m is not None and x.dtype == np.dtype('f8') and chance(rng, .4):
        x = np.where(m, x, np.asarray(pick(rng, [np.nan, np.inf, -np.inf, 1e30])))
    return strided(rng, np.ascontiguousarray(x)), w, m, k


def make(rng):
    """(kind, reduction, constructor keywords, fill)."""
    kind = pick(rng, ['count', 'sum', 'mean', 'sd', 'quantile', 'quantile', 'median', 'errorbar'])
    kw, fill = {}, -1.0e10
    if kind == 'quantile':
        kw['ps'] = pick(rng, [*PS, .5, .3, [.25, .5, .75], [0., 1.], [0, 1], 1, np.array([.9]), (.01, .99)])
    if kind in ('quantile', 'median') and chance(rng, .3):
        kw['sort'] = chance(rng, .5)
    if kind == 'errorbar' and chance(rng, .8):
        kw['reduce'] = pick(rng, ['mean+sd', 'median+1sigma', 'median+2sigma', 'median+3sigma'])
    if kind in ('mean', 'sd', 'quantile', 'median', 'errorbar') and chance(rng, .5):
        fill = pick(rng, [0., np.nan, -1., 7.5])
        kw['empty_fill'] = fill
    name = pick(rng, [a for a, c in ALIAS.items() if c is ALIAS[kind]])
    how = int(rng.integers(4))
    if how == 0 or (kind == 'quantile' and how == 1 and False):
        r = ALIAS[kind](**kw)
    elif how == 1:
        r = R.predefined[name](**kw)
    elif how == 2:
        nm, r = R.predefined.create((name, kw))
        assert nm == name
    else:
        (nm, r), = list(R.predefined.iter(pick(rng, [[(name, kw)], (name, kw)])))
        assert nm == name
    return kind, r, kw, fill


def reductions(rng, T):
    """Every reduction against its definition."""
    x, w, m, k = data(rng)
    two = x.ndim == 2
    fr = Frozen(**{n: a for n, a in (('x', x), ('w', w), ('m', m)) if a is not None})
    for _ in range(3):
        kind, r, kw, fill = make(rng)
        sort = kw.get('sort', True)
        if x.dtype == bool and kind not in ('count', 'sum', 'mean'):
            continue
        T.note(kind=kind, kw=kw, x=x, w=w, m=m)
        T.check(isinstance(r, ALIAS[kind]) and isinstance(r, R.Reduce), 'wrong reduction object', got=r)
        args = {n: a for n, a in (('weight', w), ('mask', m)) if a is not None}
        got = r(x.tolist() if chance(rng, .15) and x.dtype == 'f8' else x, **args)
        rows = x if two else x[None]
        want, hasempty = [], False
        for i, row in enumerate(rows):
            sel = np.ones(len(row), bool) if m is None else (m if not two else m[i])
            ww = None if w is None else (w if not two else w[i])[sel]
            hasempty |= not sel.any()
            want.append(one(kind, row[sel], ww, kw, fill))
        want = np.asarray(want if two else want[0], dtype=float)
        f4 = x.dtype.itemsize < 8
        scale = float(np.max(np.abs(x.astype(float)[np.isfinite(x.astype(float))]), initial=0.)) if x.size else 0.
        if kind == 'sd':       # cancellation is part of the definition
            T.close(got, want, f'{kind}', rtol=1e-8 if not f4 else 1e-3, atol=(1e-11 if not f4 else 1e-4) * scale)
        else:
            T.close(np.asarray(got, dtype=float), want, f'{kind} differs from its definition', rtol=2e-9 if not f4 else 2e-5,
                    atol=(1e-11 if not f4 else 1e-5) * scale * max(1, x.shape[-1] if kind == 'sum' else 1), kw=kw)
        T.check(isinstance(got, (np.ndarray, np.generic)), 'result is not a numpy value')
        if isinstance(got, np.ndarray) and got.flags.writeable and chance(rng, .3):
            keep = got.copy()
            got[...] = 12345.
            T.close(np.asarray(r(x, **args), float), keep.astype(float), f'{kind}: writing to a result changes the next one', rtol=1e-4, atol=1e-4 * scale * max(1, x.shape[-1]))
            got = keep
            T.ev('result_overwritten')
        T.ev(kind)
        T.ev('weighted' if w is not None else 'unweighted')
        if hasempty:
            T.ev('empty')
        # order of samples is immaterial
        if x.shape[-1] > 1 and sort and kind != 'count':
            p = rng.permutation(x.shape[-1])
            a2 = {n: a[..., p] for n, a in args.items()}
            T.close(np.asarray(r(x[..., p], **a2), float), np.asarray(got, float), f'{kind} depends on the order of the samples',
                    rtol=1e-8 if not f4 else 1e-3, atol=(1e-10 if not f4 else 1e-3) * scale * x.shape[-1])
            T.ev('permuted')
        # repeated call gives the same, weights scale out
        T.close(np.asarray(r(x, **args), float), np.asarray(got, float), 'second call differs', rtol=1e-9 if not f4 else 1e-3, atol=1e-10 * scale)
        if w is not None and kind not in ('count', 'sum') and not f4:
            T.close(r(x, **{**args, 'weight': w * 4.}), got, f'{kind} depends on the normalisation of the weights', rtol=1e-8, atol=1e-10 * scale)
        if w is None and kind in ('sum', 'mean', 'sd') and not f4:
            T.close(r(x, **args, weight=np.ones(x.shape)), got, f'{kind} with unit weights', rtol=1e-9, atol=1e-10 * scale * (x.shape[-1] if kind == 'sum' else 1))
        T.sig(kind, str(kw), x, w, m)
    fr.check(T)


def summaries(rng, T):
    """Summary objects, stacking, look-ups and rejected arguments."""
    n = int(rng.integers(1, 60))
    x = rng.normal(size=n) * 10. ** rng.integers(-2, 3)
    s = SummaryFloatArray1D(x)
    want = dict(size=n, mean=x.sum() / n, stddev=one('sd', x, None, {}, 0), median=quant(x, .5),
                _1sigma=[quant(x, p) for p in (.16, .84)], _2sigma=[quant(x, p) for p in (.025, .975)],
                _3sigma=[quant(x, p) for p in (.005, .995)])
    for k in rng.permutation(list(want)):
        T.close(getattr(s, k), want[k], f'summary {k}', rtol=1e-9, atol=1e-12 * np.abs(x).max())
        T.ev('summary')
    d = s.to_simple_repr()
    for k in want:
        T.check(k in d, 'summary misses ' + k, got=d)
    X = rng.normal(size=(int(rng.integers(1, 9)),) + tuple(rng.integers(1, 4, size=int(rng.integers(0, 3)))))
    m, sd = stats.stacking.Stack.mean_and_sd(X if chance(rng, .5) else X.tolist())
    T.close(m, sum(X) / len(X), 'mean of the stack', rtol=1e-9, atol=1e-12)
    T.close(sd, np.sqrt(sum((v - sum(X) / len(X)) ** 2 for v in X) / len(X)), 'scatter of the stack', rtol=1e-7, atol=1e-9)
    T.ev('stack')
    # several at once, in the requested order
    names = [pick(rng, list(ALIAS)) for _ in range(int(rng.integers(1, 5)))]
    spec = [pick(rng, [nm, (nm, {}), ALIAS[nm]()]) for nm in names]
    out = list(R.predefined.iter(pick(rng, [spec, iter(spec)])))
    T.check(len(out) == len(names), 'number of reductions')
    for nm, sp, (key, r) in zip(names, spec, out):
        T.check(type(r) is ALIAS[nm], 'reduction by name', name=nm)
        T.check(key == (nm if not isinstance(sp, R.Reduce) else ALIAS[nm].key), 'name of the reduction', got=key, want=nm)
        if isinstance(sp, R.Reduce):
            T.check(r is sp, 'given reduction replaced')
    T.raises(KeyError, lambda: R.predefined.create('no_such'), 'unknown reduction')
    T.raises(AssertionError, lambda: R.Mean()(x, np.ones(n + 1)), 'weights of another shape')
    T.raises(AssertionError, lambda: R.Mean()(x, mask=np.ones(n + 1, bool)), 'mask of another shape')
    T.raises(AssertionError, lambda: R.Mean()(np.zeros((2, 2, 2))), 'three dimensions')
    T.sig('summary', x)


MONITORS = [
    Monitor('reductions', reductions, 4500, 60000, need={**{k: 100 for k in ('count', 'sum', 'mean', 'sd', 'quantile', 'median', 'errorbar')},
            'weighted': 200, 'unweighted': 200, 'empty': 40, 'permuted': 300}),
    Monitor('summaries', summaries, 600, 5000, need={'summary': 500, 'stack': 100}),
]
