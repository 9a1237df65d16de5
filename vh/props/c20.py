"""C20: periodic neighbour searches."""
import numpy as np
import numba
from numba.experimental import jitclass
from pyhipp.field.neighbor.kd_tree import PE
from pyhipp.field.neighbor.kd_mesh import _PE3Mesh, _PE3_from_meshing_points
from ..core import Monitor
from ..gen import pick, chance, strided, Frozen

RULE = ('point sets of 0 to 200 points (uniform, clustered, duplicated, on nodes, faces and box edges) in boxes of any size, radii from zero to '
        'beyond the box; reference is an exhaustive search over nearest images. Identity is (points, queries, radii).')


def points(rng, n, d, L, inside=True):
    k = pick(rng, ['uniform', 'clustered', 'grid', 'dup'])
    x = rng.random((n, d)) * L
    if k == 'clustered':
        x = (rng.random(d) + .02 * rng.normal(size=(n, d))) * L
    elif k == 'grid':
        x = rng.integers(0, 4, size=(n, d)) * L / 4
    elif k == 'dup' and n:
        x = x[rng.integers(0, max(1, n // 3), size=n)]
    if n and chance(rng, .4):
        j = rng.random((n, d)) < .2
        x = np.where(j, np.where(rng.random((n, d)) < .5, 0., np.nextafter(L, 0)), x)
    if inside:
        x = np.mod(x, L)
        x[x >= L] = 0.
    return x


def pdist(x, q, L):
    d = np.abs(x - q) % L
    d = np.minimum(d, L - d)
    return np.sqrt((d ** 2).sum(-1))


def tree(rng, T):
    """All points within a radius, with their distances."""
    d = int(pick(rng, [1, 2, 3, 3, 3]))
    L = float(pick(rng, [1., 100., .03]))
    n = int(pick(rng, [1, 2, 5, 30, 200]))
    x = points(rng, n, d, L)
    if chance(rng, .15):
        x = strided(rng, x)
    orig = x.copy()
    fr = Frozen(x=x)
    kw = {}
    if chance(rng, .3):
        kw = dict(balanced_tree=chance(rng, .5), compact_nodes=chance(rng, .5))
    if chance(rng, .3):
        kw['n_workers'] = 2
    keep = chance(rng, .25)
    if keep:
        kw['copy_data'] = False
    t = PE(x, L, **kw)
    fr.check(T)
    if not keep and chance(rng, .3):
        x[...] = 0.                                 # the tree keeps its own copy by default
        T.ev('source_overwritten')
    for _ in range(6):
        q = points(rng, 1, d, L)[0]
        if chance(rng, .3):
            q = orig[int(rng.integers(n))]
        r = float(L * pick(rng, [0., 1e-9, .05, .2, .45, .5, .7, 2.]))
        dist = pdist(orig, q, L)
        if chance(rng, .4):             # a sphere that just reaches, or just misses, one of the points
            r = float(dist[int(rng.integers(n))] * (1 + pick(rng, [-1, 1]) * 1e-6)) + pick(rng, [0., 2e-9]) * L
        if np.any((np.abs(dist - r) < 1e-9 * L) & (dist > 0)):
            continue
        fq = Frozen(q=q)
        want = np.flatnonzero(dist <= r)
        arg = q.tolist() if chance(rng, .2) else q
        ids = t.query_r_1(arg, r)
        T.check(isinstance(ids, np.ndarray) and ids.dtype == np.int64 and ids.ndim == 1, 'kind of result')
        T.eq(np.sort(ids), want, 'not exactly the points within the radius', q=q, r=r, L=L)
        i2, d2 = t.query_r_1(arg, r, return_d=True)
        T.eq(np.sort(i2), want, 'indices with distances', q=q, r=r)
        T.close(d2, dist[i2], 'distance to a neighbour', rtol=1e-8, atol=1e-12 * L, q=q, r=r)
        T.ev('empty' if not len(want) else 'all' if len(want) == n else 'some')
        if len(want) and np.any(np.abs(orig[want] - q) > L / 2):
            T.ev('across_edge')
        # translation of everything
        s = rng.random(d) * L
        y, qs = np.mod(orig + s, L), np.mod(q + s, L)
        y[y >= L] = 0.
        qs[qs >= L] = 0.
        if not np.any(np.abs(dist - r) < 1e-8 * L):
            T.eq(np.sort(PE(y, L).query_r_1(qs, r)), want, 'result depends on the origin of the box', q=q, r=r)
        fq.check(T)
    T.eq(t.to_simple_repr(), {'type': 'PE', 'l_box': L, 'n_workers': kw.get('n_workers', 1)}, 'description')
    for bad in (-.1 * L, L, 1.5 * L):
        q = np.full(d, .5 * L)
        q[int(rng.integers(d))] = bad
        T.raises(AssertionError, lambda: t.query_r_1(q, .1 * L), 'query outside the box')
        if bad != L:
            xb = orig.copy()
            xb[0, 0] = bad
            T.raises(ValueError, lambda: PE(xb, L), 'points outside the box')
    T.sig('tree', orig, L)
    T.state('shape', (n, d, L))


@jitclass
class _Collect:
    xs: numba.float64[:, :]
    rs: numba.float64[:]
    who: numba.int64[:]
    where: numba.float64[:, :]
    n: numba.int64
    lost: numba.int64

    def __init__(self, xs, rs, cap):
        self.xs = xs
        self.rs = rs
        self.who = np.full(cap, -1, dtype=np.int64)
        self.where = np.full((cap, 3), np.nan)
        self.n = 0
        self.lost = 0

    def on(self, i, x_ngbs):
        for k in range(len(x_ngbs)):
            if self.n < len(self.who):
                self.who[self.n] = i
                self.where[self.n] = x_ngbs[k]
                self.n += 1
            else:
                self.lost += 1


def mesh(rng, T):
    """Mesh search calls back with every point within the radius."""
    L = float(pick(rng, [1., 100., .03]))
    g = int(pick(rng, [1, 2, 3, 4, 7, 16]))
    n = int(pick(rng, [0, 1, 2, 10, 60, 200]))
    x = np.ascontiguousarray(points(rng, n, 3, L))
    if chance(rng, .3):
        x = x + L * rng.integers(-1, 2, size=x.shape)           # any periodic image is accepted
    m = int(rng.integers(0, 12))
    q = np.ascontiguousarray(points(rng, m, 3, L))
    if chance(rng, .3):
        q = q + L * rng.integers(-1, 2, size=q.shape)
    r = L * np.array([pick(rng, [0., .01, .1, .3, .49, .9]) for _ in range(m)])
    if n and chance(rng, .6):       # spheres that just reach one of the points
        for i in range(m):
            if chance(rng, .7):
                j = int(rng.integers(n))
                if chance(rng, .5):                     # close to it along one axis
                    q[i] = x[j]
                    q[i, int(rng.integers(3))] += L * rng.uniform(-.4, .4)
                r[i] = pdist(x[j:j + 1], q[i], L)[0] * (1 + 1e-6) + 1e-9 * L
    fr = Frozen(x=x, q=q, r=r)
    ms = _PE3Mesh(L, g)
    pe = _PE3_from_meshing_points(ms, x)
    # the index itself: a permutation of the points, grouped by cell
    T.eq(sorted(map(tuple, pe.xs)), sorted(map(tuple, x)), 'indexed points are not the given points')
    cf = pe.cell_firsts
    T.check(len(cf) == g ** 3 + 1 and cf[0] == 0 and cf[-1] == n and np.all(np.diff(cf) >= 0), 'cell offsets', got=cf)
    cell = np.floor(pe.xs / (L / g)).astype(int) % g
    f = (cell[:, 0] * g + cell[:, 1]) * g + cell[:, 2]
    for j in range(n):
        T.check(cf[f[j]] <= j < cf[f[j] + 1], 'point filed under another cell')
    rows = {tuple(v): i for i, v in enumerate(map(tuple, x))}
    mult = {}
    for v in map(tuple, x):
        mult[v] = mult.get(v, 0) + 1
    l = L / g
    span = np.floor((q + r[:, None]) / l) - np.floor((q - r[:, None]) / l) + 1 if m else np.zeros((0, 3))
    cap = int(sum(np.prod(np.maximum(np.ceil(s / g), 1)) for s in span) * max(n, 1) + 10)
    c = _Collect(q, r, cap)
    pe.query_points(c)
    T.eq(int(c.lost), 0, 'more calls than cells allow')
    got = [dict() for _ in range(m)]
    for k in range(c.n):
        i, v = int(c.who[k]), tuple(c.where[k])
        T.check(0 <= i < m, 'call for an unknown query')
        T.check(v in rows, 'call with a point that does not exist')
        got[i][v] = got[i].get(v, 0) + 1
    for i in range(m):
        dist = pdist(x, q[i], L) if n else np.zeros(0)
        for j in range(n):
            v = tuple(x[j])
            if dist[j] < r[i] * (1 - 1e-9) - 1e-12 * L or (dist[j] == 0 and np.array_equal(x[j], q[i])):
                T.check(got[i].get(v, 0) >= mult[v], 'a point within the radius was missed', q=q[i], r=r[i], x=v, L=L, g=g)
                T.ev('found')
        if np.all(span[i] <= g):                     # no cell is visited twice
            for v, k in got[i].items():
                T.check(k == mult[v], 'a point was reported more than once', v=v, n=k)
                b = np.abs(np.asarray(v) - q[i]) % L
                b = np.minimum(b, L - b)
                T.check(np.all(b <= r[i] + l * (1 + 1e-9)), 'a point more than a cell beyond the radius was reported', v=v)
                T.ev('reported')
    fr.check(T)
    T.sig('mesh', x, q, r, g)
    T.state('mesh', (n, g, L))


MONITORS = [
    Monitor('tree', tree, 750, 8000, need={'empty': 50, 'some': 200, 'all': 100, 'across_edge': 50}),
    Monitor('mesh', mesh, 750, 8000, need={'found': 1000, 'reported': 1000}),
]
