"""C15: random generators."""
import random as pyrandom
import math
import numpy as np
from pyhipp import stats
from pyhipp.stats import Rng, RandomNoise
from pyhipp.stats.random import _Rng
from ..core import Monitor
from ..gen import pick, chance, Frozen

RULE = ('random interleavings of draws from several generators, each replayed alone on a plain numpy generator of the same seed; '
        'sphere, circle and noise draws are tested for support and distribution. Identity is (seeds, call sequence).')


def gstate():
    s = np.random.get_state()
    return (s[0], s[1].tobytes(), s[2:], pyrandom.getstate())


def size(rng):
    return pick(rng, [None, 0, 1, 5, (2, 3), (4,), (1, 0, 2)])


def call(rng):
    """One random request: function of a library generator and of a numpy one."""
    k = pick(rng, ['random', 'uniform', 'uniform1', 'standard_normal', 'normal', 'normal1', 'choice', 'choice_arr', 'permutation',
                   'perm_arr', 'shuffle', 'sphere', 'circle', 'lg'])
    s = size(rng)
    a, b = sorted(rng.normal(size=2) * 10)
    n = int(rng.integers(2, 12))
    arr = rng.normal(size=(n, 3))
    if k == 'random':
        return k, lambda g: g.random(s) if chance(rng, .5) else g.random(size=s), lambda g: g.random(s)
    if k == 'uniform':
        return k, lambda g: g.uniform(a, b, s), lambda g: g.uniform(a, b, s)
    if k == 'uniform1':
        return k, lambda g: g.uniform(size=s), lambda g: g.uniform(size=s)
    if k == 'standard_normal':
        return k, lambda g: g.standard_normal(s), lambda g: g.standard_normal(s)
    if k == 'normal':
        return k, lambda g: g.normal(a, b - a, s), lambda g: g.normal(a, b - a, s)
    if k == 'normal1':
        return k, lambda g: g.normal(size=s), lambda g: g.normal(size=s)
    if k == 'choice':
        m = int(rng.integers(1, n))
        kw = pick(rng, [{}, {'replace': False}, {'replace': False, 'shuffle': False}, {'p': np.full(n, 1. / n)}, {'p': np.full(n, 1. / n), 'replace': False},
                        {'p': np.arange(1., n + 1) / (n * (n + 1) / 2), 'replace': False}, {'p': np.arange(1., n + 1) / (n * (n + 1) / 2), 'shuffle': False}])
        return k, lambda g: g.choice(n, m, **kw), lambda g: g.choice(n, m, **kw)
    if k == 'choice_arr':
        ax = int(pick(rng, [0, 1, -1, -2]))
        return k, lambda g: g.choice(arr, size=2, axis=ax), lambda g: g.choice(arr, size=2, axis=ax)
    if k == 'permutation':
        return k, lambda g: g.permutation(n), lambda g: g.permutation(n)
    if k == 'perm_arr':
        ax = int(pick(rng, [0, 1, -1, -2]))
        return k, lambda g: g.permutation(arr, axis=ax), lambda g: g.permutation(arr, axis=ax)
    if k == 'shuffle':
        ax = int(pick(rng, [0, 1, -1, -2]))

        def sh(g):
            c = arr.copy()
            assert g.shuffle(c, axis=ax) is None
            return c
        return k, sh, sh
    if k == 'sphere':
        kw = dict(size=s, stack=chance(rng, .5), cartesian=chance(rng, .5))
        return k, lambda g: g.uniform_sphere(**kw), lambda g: Rng(g).uniform_sphere(**kw)
    if k == 'circle':
        kw = dict(size=s, stack=chance(rng, .5), cartesian=chance(rng, .5))
        return k, lambda g: g.uniform_circle(**kw), lambda g: Rng(g).uniform_circle(**kw)
    x = rng.normal(size=n)
    kw = dict(noise_in_lg=chance(rng, .5))
    rep = int(pick(rng, [1, 1, 3]))

    def lib(g):
        return RandomNoise(abs(b), rng=g, **kw).add_to(x, rep)

    def ref(g):
        d = g.standard_normal((rep, n)) * abs(b)
        o = x * 10 ** d if kw['noise_in_lg'] else x + d
        return o[0] if rep == 1 else o
    return k, lib, ref


def interleave(rng, T):
    """Several generators, any interleaving: each equals its lone replay."""
    ng = int(rng.integers(1, 5))
    seeds = [int(v) for v in rng.integers(0, 2 ** 32, size=ng)]
    gens, refs, kinds = [], [], []
    for i, s in enumerate(seeds):
        k = pick(rng, ['int', 'npint', 'gen', 'rng', 'default', 'generator_cls'])
        if k == 'default':
            gens.append(Rng()); refs.append(np.random.default_rng(0))
        elif k == 'int':
            gens.append(Rng(s)); refs.append(np.random.default_rng(s))
        elif k == 'npint':
            gens.append(Rng(np.int64(s))); refs.append(np.random.default_rng(s))
        elif k == 'gen':
            g = np.random.default_rng(s)
            g.random(3)
            r = np.random.default_rng(s); r.random(3)
            gens.append(Rng(g)); refs.append(r)
        elif k == 'generator_cls':
            gens.append(Rng(seed=np.random.Generator(np.random.MT19937(s)))); refs.append(np.random.Generator(np.random.MT19937(s)))
        elif gens and chance(rng, .5):              # shares the stream of an existing generator
            j = int(rng.integers(len(gens)))
            gens.append(Rng(gens[j])); refs.append(refs[j])
            T.ev('shared')
        else:
            gens.append(Rng(Rng(s))); refs.append(np.random.default_rng(s))
        kinds.append(k)
    before = gstate()
    hist = []
    for _ in range(int(rng.integers(5, 25))):
        i = int(rng.integers(ng))
        name, lib, ref = call(rng)
        if chance(rng, .3):                          # somebody else uses the global generators
            np.random.seed(int(rng.integers(1000)))
            pyrandom.seed(int(rng.integers(1000)))
            before = gstate()
        got, want = lib(gens[i]), ref(refs[i])
        if isinstance(want, tuple):
            T.check(isinstance(got, tuple) and len(got) == len(want), f'{name}: kind of result')
            for a, b in zip(got, want):
                T.close(a, b, f'{name}: draw differs from the lone replay', rtol=1e-12)
        else:
            T.close(got, want, f'{name}: draw differs from the lone replay', rtol=1e-12)
        hist.append((i, name))
        T.ev(name)
    T.check(gstate() == before, 'a draw disturbed the global random state')
    for g, r in zip(gens, refs):
        T.eq(float(g.random()), float(r.random()) if refs.count(r) == 1 else r.random(), 'state after the history differs') if refs.count(r) == 1 else None
    T.sig(seeds, hist)
    T.state('kinds', sorted(kinds))


def ks(u, v=None):
    """sqrt(n) times the Kolmogorov distance from the uniform distribution on [0,1)."""
    u = np.sort(u)
    n = len(u)
    i = np.arange(n)
    return math.sqrt(n) * max(np.max((i + 1) / n - u), np.max(u - i / n))


def distribution(rng, T):
    """Support and distribution of the geometric draws and of the noise."""
    n = 4000
    g = Rng(int(rng.integers(2 ** 31)))
    lim = 2.6                                  # tail probability below 3e-6
    sz = pick(rng, [n, (n,), (n // 4, 4)])
    shp = (n,) if sz in (n, (n,)) else sz
    v = g.uniform_sphere(sz)
    T.check(v.shape == shp + (3,), 'shape of sphere points', got=v.shape)
    T.close((v ** 2).sum(-1), np.ones(shp), 'points are not on the unit sphere', rtol=1e-12)
    x, y, z = v.reshape(-1, 3).T
    for a in (x, y, z):                        # each coordinate of a uniform direction is uniform
        T.check(ks((a + 1) / 2) < lim, 'coordinate of a direction is not uniform', ks=ks((a + 1) / 2))
    ph = np.arctan2(y, x) % (2 * np.pi)
    T.check(ks(ph / (2 * np.pi)) < lim, 'azimuth is not uniform')
    T.check(abs(np.corrcoef(ph, z)[0, 1]) < 5.2 / math.sqrt(n), 'azimuth and latitude are correlated')
    tp = g.uniform_sphere(sz, cartesian=False)
    T.check(tp.shape == shp + (2,), 'shape of polar points', got=tp.shape)
    th, ph = tp.reshape(-1, 2).T
    T.check(np.all((th >= 0) & (th <= np.pi)) and np.all((ph >= 0) & (ph <= 2 * np.pi)), 'range of polar angles')
    T.check(ks((np.cos(th) + 1) / 2) < lim and ks(ph / (2 * np.pi)) < lim, 'polar angles are not uniform on the sphere')
    s = int(rng.integers(2 ** 31))
    c1 = Rng(s).uniform_sphere(sz)
    c2 = Rng(s).uniform_sphere(sz, stack=False)
    p1 = Rng(s).uniform_sphere(sz, cartesian=False)
    p2 = Rng(s).uniform_sphere(sz, stack=False, cartesian=False)
    T.eq(np.stack(c2, -1), c1, 'stacked and separate Cartesian draws differ')
    T.eq(np.stack(p2, -1), p1, 'stacked and separate polar draws differ')
    T.close(np.stack([np.sin(p1[..., 0]) * np.cos(p1[..., 1]), np.sin(p1[..., 0]) * np.sin(p1[..., 1]), np.cos(p1[..., 0])], -1),
            c1, 'Cartesian and polar draws are different directions', rtol=1e-9, atol=1e-12)
    w = g.uniform_circle(sz)
    T.check(w.shape == shp + (2,), 'shape of circle points')
    T.close((w ** 2).sum(-1), np.ones(shp), 'points are not on the unit circle', rtol=1e-12)
    a = np.arctan2(w[..., 1], w[..., 0]).ravel() % (2 * np.pi)
    T.check(ks(a / (2 * np.pi)) < lim, 'angle on the circle is not uniform')
    c1, c2, c3 = (Rng(s).uniform_circle(sz, **k) for k in ({}, {'stack': False}, {'cartesian': False}))
    T.eq(np.stack(c2, -1), c1, 'stacked and separate circle draws differ')
    T.check(np.all((c3 >= 0) & (c3 <= 2 * np.pi)), 'range of the angle on the circle')
    T.close(np.stack([np.cos(c3), np.sin(c3)], -1), c1, 'Cartesian and polar circle draws differ', rtol=1e-9, atol=1e-12)
    # noise
    sg = float(rng.uniform(.1, 3.))
    x0 = rng.uniform(1., 2., size=n)
    fr = Frozen(x0=x0)
    lg = chance(rng, .5)
    rep = int(pick(rng, [1, 2]))
    o = RandomNoise(sg, noise_in_lg=lg, rng=int(rng.integers(2 ** 31))).add_to(x0, n_repeats=rep)
    T.check(o.shape == ((n,) if rep == 1 else (rep, n)), 'shape of the noisy copies')
    e = (np.log10(o / x0) if lg else o - x0) / sg
    from scipy.special import ndtr
    T.check(ks(ndtr(e.ravel())) < lim, 'noise is not normal with the requested scatter', ks=ks(ndtr(e.ravel())))
    if rep == 2:
        T.check(abs(np.corrcoef(e)[0, 1]) < 5.2 / math.sqrt(n), 'repeats are correlated')
    T.close(RandomNoise(0.).add_to(x0), x0, 'noise without scatter')
    r = RandomNoise(sg)
    T.check(not np.array_equal(r.add_to(x0[:5]), r.add_to(x0[:5])), 'noise repeats itself')
    T.eq(RandomNoise(sg).add_to(x0), RandomNoise(sg).add_to(x0), 'default noise is not reproducible')
    fr.check(T)
    T.check(not np.array_equal(Rng(None).random(4), Rng(None).random(4)), 'unseeded generators agree')
    T.raises(AssertionError, lambda: Rng('1'), 'a string is not a seed')
    T.raises(AssertionError, lambda: RandomNoise(1., noise_dist='cauchy'), 'unknown noise')
    u = g.random(n)
    T.check(np.all((u >= 0) & (u < 1)) and ks(u) < lim, 'uniform draws')
    T.check(ks(ndtr(g.normal(2., 3., n) / 3. - 2. / 3.)) < lim, 'normal draws')
    T.ev('distribution')
    T.sig(s)


def compiled(rng, T):
    """The generator for compiled code draws the same stream."""
    s = int(rng.integers(2 ** 31))
    g = _Rng(np.random.default_rng(s))
    r = np.random.default_rng(s)
    before = gstate()
    for _ in range(6):
        k = int(rng.integers(7))
        n = int(rng.integers(1, 9))
        a, b = rng.normal(), 1. + rng.random()
        if k == 0:
            T.close(g.random(n), r.random(n), 'random', rtol=1e-14)
        elif k == 1:
            T.close(g.uniform(a, a + b, n), r.uniform(a, a + b, n), 'uniform', rtol=1e-12, atol=1e-14)
        elif k == 2:
            T.close(g.standard_normal(n), r.standard_normal(n), 'standard_normal', rtol=1e-12)
        elif k == 3:
            T.close(g.normal(a, b, n), r.normal(a, b, n), 'normal', rtol=1e-12, atol=1e-14)
        elif k == 4:
            T.close(g.lg_normal(a, b, n), 10. ** r.normal(a, b, n), 'lg_normal', rtol=1e-10)
        elif k == 5:
            th, ph = g.uniform_sphere_polar(n)
            c, p = r.uniform(-1., 1., n), r.uniform(0., 2 * np.pi, n)
            T.close(np.cos(th), c, 'polar angle', rtol=1e-9, atol=1e-12)
            T.close(ph, p, 'azimuth', rtol=1e-12)
        else:
            x, y, z = g.uniform_sphere_cart(n)
            c, p = r.uniform(-1., 1., n), r.uniform(0., 2 * np.pi, n)
            T.close(z, c, 'z', rtol=1e-9, atol=1e-12)
            T.close(x * x + y * y + z * z, np.ones(n), 'not on the sphere', rtol=1e-12)
            T.close(x, np.sqrt(1 - c * c) * np.cos(p), 'x', rtol=1e-8, atol=1e-10)
        # one value, with what is left out taken from the documented defaults
        w = int(rng.integers(8))
        lib, ref = [
            (lambda: g.random(), lambda: r.random()), (lambda: g.uniform(), lambda: r.uniform()), (lambda: g.uniform(min(a, .9)), lambda: r.uniform(min(a, .9))),
            (lambda: g.normal(), lambda: r.normal()), (lambda: g.normal(a), lambda: r.normal(a)), (lambda: g.lg_normal(), lambda: 10. ** r.normal()),
            (lambda: g.lg_normal(a), lambda: 10. ** r.normal(a)), (lambda: g.standard_normal(), lambda: r.standard_normal())][w]
        T.close(lib(), ref(), 'single value', rtol=1e-10, atol=1e-14, which=w)
        T.ev('compiled')
    T.check(gstate() == before, 'a compiled draw disturbed the global random state')
    T.sig(s)


MONITORS = [
    Monitor('interleave', interleave, 400, 20000, need={k: 50 for k in ('random', 'uniform', 'normal', 'choice', 'permutation', 'shuffle', 'sphere', 'circle', 'lg', 'shared')}),
    Monitor('distribution', distribution, 60, 600, shards=2, need={'distribution': 40}),
    Monitor('compiled', compiled, 60, 2000, need={'compiled': 200}),
]
