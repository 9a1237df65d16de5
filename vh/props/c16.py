"""C16: data transforms and kernels."""
import math
import numpy as np
from scipy.special import ndtri
from pyhipp.stats.prob_dist import ProbTransToNorm
from pyhipp.stats.preprocessing import Standardize
from pyhipp.stats import kernel as K
from ..core import Monitor
from ..gen import pick, chance, strided, Frozen

RULE = ('random training samples (tiny to large, any scale and offset, shuffled) with transforms applied to training and other data and undone; '
        'reference is the piecewise-linear empirical distribution, the standard formula and a hand-written kernel. Identity is (data, options).')


def norm_trans(rng, T):
    """Rank mapping to a normal distribution."""
    n = int(pick(rng, [2, 3, 4, 10, 50, 400]))
    x = rng.permutation(np.cumsum(rng.exponential(size=n) + .01)) * 10. ** rng.integers(-4, 5) + pick(rng, [0., -30.])
    if len(np.unique(x)) < n:
        return
    x = strided(rng, x)
    fr = Frozen(x=x)
    f = ProbTransToNorm(x)
    o = np.sort(x)

    def cdf(v):
        i = min(max(int(np.sum(o <= v)) - 1, 0), n - 2)
        return (i + (v - o[i]) / (o[i + 1] - o[i])) / (n - 1)
    u = f.forw(x, with_norm=False)
    T.close(u, np.argsort(np.argsort(x)) / (n - 1.), 'ranks of the sample', rtol=1e-9, atol=1e-12)
    q = rng.uniform(o[0], o[-1], size=12)
    T.close(f.forw(q, with_norm=False), [cdf(v) for v in q], 'empirical distribution', rtol=1e-7, atol=1e-9)
    g = f.forw(q)
    T.close(g, ndtri(np.clip([cdf(v) for v in q], 0, 1)), 'normal scores', rtol=1e-5, atol=1e-6)
    T.check(np.all(np.diff(f.forw(np.sort(q))) >= 0), 'order is not preserved')
    span = o[-1] - o[0]
    T.close(f.back(g), q, 'back transform', rtol=1e-7, atol=1e-7 * span)
    T.close(f.back(f.forw(q, with_norm=False), with_norm=False), q, 'back transform of ranks', rtol=1e-9, atol=1e-9 * span)
    p = rng.random(8)
    i = np.minimum((p * (n - 1)).astype(int), n - 2)
    T.close(f.back(p, with_norm=False), o[i] + (p * (n - 1) - i) * (o[i + 1] - o[i]), 'quantile function', rtol=1e-8, atol=1e-9 * span)
    j = int(rng.integers(8))
    for one in (float, np.asarray, np.float64):         # single values as well as arrays
        T.close(np.asarray(f.back(one(p[j]), with_norm=False)), f.back(p, with_norm=False)[j], 'quantile of one probability', rtol=1e-12)
        T.close(np.asarray(f.forw(one(q[j]), with_norm=False)), f.forw(q, with_norm=False)[j], 'rank of one value', rtol=1e-12)
        T.close(np.asarray(f.forw(one(q[j]))), f.forw(q)[j], 'score of one value', rtol=1e-12)
        T.close(np.asarray(f.back(one(g[j]))), f.back(g)[j], 'back transform of one score', rtol=1e-12)
    T.close(f.forw(q.reshape(3, 4)), g.reshape(3, 4), 'scores of a table of values', rtol=1e-12)
    T.close(f.back(p.reshape(2, 4), with_norm=False), f.back(p, with_norm=False).reshape(2, 4), 'quantiles of a table of probabilities', rtol=1e-12)
    z = rng.normal(size=8)
    T.close(f.forw(f.back(z)), z, 'forward of back', rtol=1e-5, atol=1e-5)
    T.close(f.back(np.array([-np.inf, np.inf])), [o[0], o[-1]], 'end points', rtol=1e-12)
    inner = (x > o[0]) & (x < o[-1])
    T.close(f.back(f.forw(x[inner])), x[inner], 'round trip of the sample', rtol=1e-7, atol=1e-7 * span)
    if n > 2:
        y = x.copy()
        y[0] = y[1]
        T.raises(AssertionError, lambda: ProbTransToNorm(y), 'ties have no unique rank')
    T.ev('norm')
    fr.check(T)
    T.sig('norm', x)


def standard(rng, T):
    """Standardisation and its inverse."""
    n, d = int(rng.integers(1, 40)), int(rng.integers(1, 5))
    x = rng.normal(size=(n, d)) * 10. ** rng.integers(-3, 4, size=d) + rng.normal(size=d) * pick(rng, [0., 10.])
    if chance(rng, .2):
        x[:, 0] = 3.
    if chance(rng, .15):
        x = rng.integers(-10, 10, size=(n, d))
    x = strided(rng, x)
    lb = pick(rng, [None, 1e-10, .5])
    fr = Frozen(x=x)
    f = Standardize(x) if lb is None else Standardize(x, lb) if chance(rng, .5) else Standardize(x, sd_lb=lb)
    l = 1e-10 if lb is None else lb
    m = np.array([math.fsum(x[:, i]) / n for i in range(d)])
    s = np.array([math.sqrt(math.fsum((x[:, i] - m[i]) ** 2) / n) for i in range(d)])
    amp = np.abs(x).max(0) * 1e-12
    T.close(f.mean, m, 'mean', rtol=1e-9, atol=amp.max())
    T.check(np.all(np.abs(f.sd - np.maximum(s, l)) <= 1e-9 * s + amp + 1e-300), 'scale', got=f.sd, want=np.maximum(s, l))
    q = strided(rng, rng.normal(size=(int(rng.integers(1, 9)), d)) * 5) if chance(rng, .5) else x
    q = q if chance(rng, .7) else q[0]
    fr2 = Frozen(q=q)
    z = f(q)
    T.close(z, (q - f.mean) / f.sd, 'standardised value', rtol=1e-10, atol=1e-14)
    T.close(f(z, backward=True), q, 'inverse of the transform', rtol=1e-9, atol=1e-9 * (np.abs(q).max() + np.abs(m).max()))
    ok = np.maximum(s, l) > 1e-4 * np.abs(m)            # else the mean swallows the digits
    T.close(f(f(q, backward=True))[..., ok], q[..., ok], 'transform of the inverse', rtol=1e-7, atol=1e-6)
    if n > 1 and np.all(s > 1e-6 * (1 + np.abs(m))) and np.all(s > l):
        t = f(x)
        T.close(t.mean(0), np.zeros(d), 'mean after the transform', atol=1e-8)
        T.close(t.std(0), np.ones(d), 'scatter after the transform', rtol=1e-7)
        T.ev('unit')
    T.close(f(q), z, 'second call differs', rtol=1e-14)
    r = f.to_simple_repr()
    T.eq(list(r), ['type', 'mean', 'sd', 'sd_lb'], 'description of the transform')
    T.eq(r['sd_lb'], l, 'bound in the description')
    T.raises(AssertionError, lambda: Standardize(x[:, 0]), 'one-dimensional training sample')
    fr.check(T)
    fr2.check(T)
    T.ev('standard')
    T.sig('standard', x, q)


def kernels(rng, T):
    """Kernels and ball volumes."""
    s = float(10. ** rng.uniform(-3, 3))
    d = pick(rng, [np.abs(rng.normal(size=pick(rng, [(), 0, 5, (2, 3)]))) * s * 2, rng.integers(0, 4, size=6)])
    d = np.asarray(d)
    fr = Frozen(d=d)
    kind = pick(rng, ['gaussian', 'tophat'])
    nm, cls, kw = ('sigma', K.Gaussian, {'sigma': s}) if kind == 'gaussian' else ('radius', K.Tophat, {'radius': s})
    form = int(rng.integers(6))
    if form == 0:
        k = cls(s)
    elif form == 1:
        k = cls(**kw)
    elif form == 2:
        n_, k = K.predefined.create((kind, kw))
        T.eq(n_, kind, 'name of the kernel')
    elif form == 3:
        k0 = cls(**kw)
        n_, k = K.predefined.create(k0)
        T.check(k is k0 and n_ == kind, 'given kernel is used')
    elif form == 4:
        n_, k = K.predefined.create(kind)
        s = 1.
    elif kind == 'gaussian':
        form = pick(rng, [float, np.float64, np.float32, np.float16, int, np.int64, np.int8, bool])
        if form in (int, np.int64, np.int8):
            s = float(rng.integers(1, 9))
        elif form is bool:
            s, form = 1., float
        elif form is np.float16:
            s = float(np.float16(np.clip(s, .01, 100)))
        else:
            s = float(form(s))
        n_, k = K.predefined.create(form(s))
        T.eq(n_, 'gaussian', 'a number is a Gaussian width')
    else:
        k = K.predefined['tophat'](**kw)
    T.check(type(k) is cls, 'class of the kernel')
    T.close(getattr(k, nm), s, 'scale of the kernel')
    v = k(d.tolist() if chance(rng, .2) else d)
    want = np.array([math.exp(-(t / s) ** 2 / 2) if kind == 'gaussian' else float(t < s) for t in d.ravel()]).reshape(d.shape)
    T.close(v, want, 'value of the kernel', rtol=1e-11, atol=1e-300)
    T.check(np.all((np.asarray(v) >= 0) & (np.asarray(v) <= 1)), 'range of the kernel')
    if kind == 'tophat':
        T.eq(np.asarray(k(np.array([s, np.nextafter(s, 0), 0.]))), np.array([0., 1., 1.]), 'edge of the support')
        for nd in range(0, 8):
            b = lambda r: math.pi ** (nd / 2) / math.gamma(nd / 2 + 1) * r ** nd
            T.close(k.volume(nd, None), b(s), 'volume of the kernel', rtol=1e-12)
            m = s * float(rng.uniform(.1, 3.))
            T.close(k.volume(nd, m), b(min(s, m)), 'volume cut at the largest radius', rtol=1e-12)
            T.close(k.volume(nd, pick(rng, [0., 0])), b(0.), 'volume cut at radius zero', rtol=1e-12)
    T.ev(kind)
    fr.check(T)
    T.sig(kind, s, d)


MONITORS = [
    Monitor('norm_trans', norm_trans, 1200, 10000, need={'norm': 300}),
    Monitor('standard', standard, 1500, 15000, need={'standard': 300, 'unit': 50}),
    Monitor('kernels', kernels, 1500, 15000, need={'gaussian': 100, 'tophat': 100}),
]
