"""C14: density estimation and contour levels."""
import math
import numpy as np
from pyhipp import plot
from pyhipp.core import dataproc as dp
from pyhipp.stats.density_estimation import DensityEstimationND, DensityEstimation1D
from pyhipp.plot.two_dim import Histogram2D, KNearestNeighbor2D, Scatter2D
from ..core import Monitor
from ..gen import pick, chance, float_grid, Frozen
from .c13 import kern, METRICS

RULE = ('random samples in 1-4 dimensions with and without weights; cells, balls and neighbours are recomputed by exhaustive loops, '
        'integrals by summing cells. Identity is (sample, query, options).')


def ball(d, r):
    return math.pi ** (d / 2) / math.gamma(d / 2 + 1) * r ** d


def sample(rng, dmax=3):
    d = int(rng.integers(1, dmax + 1))
    n = int(pick(rng, [1, 2, 5, 20, 80, 300]))
    x = rng.normal(size=(n, d))
    w = rng.random(n) + .05 if chance(rng, .5) else None
    return d, n, x, w


def histogram(rng, T):
    """Histogram estimates on a grid."""
    d, n, x, w = sample(rng)
    edges = [float_grid(rng, int(rng.integers(2, 7)), -2., 2.) if chance(rng, .5) else np.linspace(-2., 2., int(rng.integers(2, 7))) for _ in range(d)]
    reg = all(np.allclose(np.diff(e), e[1] - e[0]) for e in edges)
    if reg and chance(rng, .5):
        sl = tuple(slice(-2., 2., complex(0, len(e))) for e in edges)
        grid = dp.GridMd.at[sl if d > 1 else sl[0]]
    else:
        grid = dp.GridMd(*edges)
    if chance(rng, .2):
        x = np.clip(x, -1.9, 1.9)
    q = rng.uniform(-3, 3, size=(int(rng.integers(1, 30)), d))
    if len(edges[0]) > 1 and chance(rng, .7):           # exactly on an inner edge or on the left one
        for a in range(d):
            q[0, a] = edges[a][int(rng.integers(len(edges[a]) - 1))]
    density = chance(rng, .6)
    fill = pick(rng, [0., np.nan, -1.])
    inside = np.all([(x[:, a] >= edges[a][0]) & (x[:, a] <= edges[a][-1]) for a in range(d)], axis=0)
    if density and not inside.any():
        return
    H = {}
    for i in np.flatnonzero(inside):
        c = tuple(min(int(np.sum(edges[a] <= x[i, a])) - 1, len(edges[a]) - 2) for a in range(d))
        H[c] = H.get(c, 0.) + (1. if w is None else w[i])
    tot = sum(H.values())
    fr = Frozen(x=x, q=q, **({} if w is None else {'w': w}))
    kw = {}
    if not density or chance(rng, .5):
        kw['density'] = density
    flat = d == 1 and chance(rng, .5)
    cls = DensityEstimation1D if d == 1 and chance(rng, .5) else DensityEstimationND
    out = cls.by_histogram(x[:, 0] if flat else x, q[:, 0] if flat else q, grid, weight=w, out_fill=fill, **kw)
    for i in range(len(q)):
        c = tuple(int(np.sum(edges[a] <= q[i, a])) - 1 for a in range(d))
        out_ = any(k < 0 or k > len(e) - 2 for k, e in zip(c, edges))
        if out_:
            want = fill
            T.ev('outside')
        else:
            want = H.get(c, 0.)
            if density:
                want /= tot * np.prod([edges[a][c[a] + 1] - edges[a][c[a]] for a in range(d)])
            T.ev('inside' if want else 'empty_cell')
        T.close(out['h'][i], want, 'histogram density', rtol=1e-9, atol=1e-13, q=q[i], edges=edges)
        T.eq(bool(out['is_out'][i]), bool(out_), 'outside flag')
    # integral over all cells
    cs = np.stack([v.ravel() for v in np.meshgrid(*[.5 * (e[1:] + e[:-1]) for e in edges], indexing='ij')], -1)
    vol = np.prod(np.stack([v.ravel() for v in np.meshgrid(*[np.diff(e) for e in edges], indexing='ij')], -1), -1)
    h = cls.by_histogram(x, cs, grid, weight=w, **kw)['h']
    T.close((h * vol).sum() if density else h.sum(), 1. if density else tot, 'cells do not sum to the total', rtol=1e-9)
    T.ev('integral')
    fr.check(T)
    T.sig('hist', x, w, q, density)


def local(rng, T):
    """Local-kernel estimates."""
    d, n, x, w = sample(rng, 4)
    q = rng.normal(size=(int(rng.integers(2, 12)), d)) * pick(rng, [1., 1., 3.])
    metric = pick(rng, ['euclidean'] * 4 + ['chebyshev'])
    impl = {'metric': metric} if metric != 'euclidean' else {}
    if chance(rng, .3):
        impl['leaf_size'] = int(rng.integers(1, 10))
    dist = METRICS[metric](q[:, None] - x[None])
    default = chance(rng, .15)
    mx = float(np.mean(np.std(q, axis=0)) / 10) if default else float(pick(rng, [.2, .7, 2., 20.]))
    if np.any(np.abs(dist - mx) < 1e-9):
        return
    spec, f = kern(rng, 1.)
    fr = Frozen(x=x, q=q, **({} if w is None else {'w': w}))
    kw = {} if default else {'max_dx': mx}
    if chance(rng, .3):
        kw['impl_query_kw'] = {'sort_results': chance(rng, .5)}
    out = DensityEstimationND.by_local_kernel(x, q, kernel=spec, weight=w, impl_kw=impl, **kw)
    ww = np.ones(n) / n if w is None else w / w.sum()
    for i in range(len(q)):
        j = np.flatnonzero(dist[i] <= mx)
        if len(j) and f is not None:
            k = f(dist[i, j])
            if k.sum() < 1e-290:
                continue
            want = (ww[j] * k).sum() * len(j) / k.sum() / ball(d, mx)
        else:
            want = ww[j].sum() / ball(d, mx)
        T.close(out['h'][i], want, 'local-kernel density', rtol=1e-9, atol=1e-15)
        T.eq(int(out['n_neighbors'][i]), len(j), 'number of neighbours')
        T.close(out['neighbor_max_dx'][i], dist[i, j].max() if len(j) else 0., 'largest neighbour distance', rtol=1e-9)
        T.ev('ball' if len(j) else 'empty')
    p = rng.permutation(n)
    out2 = DensityEstimationND.by_local_kernel(x[p], q, kernel=spec, weight=None if w is None else w[p], impl_kw=impl, **kw)
    T.close(out2['h'], out['h'], 'order of the sample matters', rtol=1e-8, atol=1e-15)
    if w is not None:
        out3 = DensityEstimationND.by_local_kernel(x, q, kernel=spec, weight=w * 8., impl_kw=impl, **kw)
        T.close(out3['h'], out['h'], 'normalisation of the weights matters', rtol=1e-9, atol=1e-15)
    fr.check(T)
    T.sig('local', x, w, q, mx)


def knn(rng, T):
    """k-nearest-neighbour estimates."""
    d, n, x, w = sample(rng, 4)
    q = rng.normal(size=(int(rng.integers(2, 12)), d)) * pick(rng, [1., 3.])
    dist = METRICS['euclidean'](q[:, None] - x[None])
    k = int(min(n, pick(rng, [1, 2, 5, 32, n])))
    o = np.argsort(dist, 1)
    ds = np.take_along_axis(dist, o, 1)
    if k < n and np.any(ds[:, k] - ds[:, k - 1] < 1e-9):
        return
    mx = float(pick(rng, [.3, 1., 5.])) if chance(rng, .5) else None
    if mx is not None and np.any(np.abs(dist - mx) < 1e-9):
        return
    spec, f = kern(rng, 1.)
    fr = Frozen(x=x, q=q, **({} if w is None else {'w': w}))
    kw = {} if k == 32 and chance(rng, .5) else {'k': k}
    if chance(rng, .3):
        kw['impl_query_kw'] = {'dualtree': chance(rng, .5), 'breadth_first': chance(rng, .5)}
    out = DensityEstimationND.by_knn(x, q, max_dx=mx, kernel=spec, weight=w, impl_kw={'leaf_size': 3} if chance(rng, .3) else {}, **kw)
    ww = np.ones(n) / n if w is None else w / w.sum()
    for i in range(len(q)):
        j = o[i, :k]
        r = dist[i, j].max()
        if mx is not None:
            j = j[dist[i, j] < mx]
            r = min(r, mx)
        if len(j) and f is not None:
            kk = f(dist[i, j])
            if kk.sum() < 1e-200:
                continue
            want = (ww[j] * kk).sum() * len(j) / kk.sum() / ball(d, r)
        else:
            want = ww[j].sum() / ball(d, r)
        T.close(out['h'][i], want, 'nearest-neighbour density', rtol=1e-9, atol=1e-15, k=k, mx=mx)
        T.eq(int(out['n_neighbors'][i]), len(j), 'number of neighbours')
        T.close(out['neighbor_max_dx'][i], r, 'radius of the neighbourhood', rtol=1e-9)
        T.ev('full' if len(j) == k else 'cut')
    fr.check(T)
    T.sig('knn', x, w, q, k, mx)


def lattice(rng, T):
    """Distances that are exact in floating point, many of them equal to the limit."""
    n = int(pick(rng, [5, 12, 40]))
    u = 2. ** rng.integers(-6, 7)
    x = rng.permutation(4 * n)[:n] * u
    w = rng.integers(1, 9, size=n).astype(float) if chance(rng, .5) else None
    q = (rng.integers(-2, 4 * n + 2, size=int(rng.integers(2, 6)))) * u
    dist = np.abs(q[:, None] - x)
    m = float(u * rng.integers(1, 9))
    spec, f = pick(rng, [(None, None), (('gaussian', {'sigma': 4 * u}), lambda d: np.exp(-.5 * (d / (4 * u)) ** 2)), (('tophat', {'radius': 3 * u}), lambda d: (d < 3 * u) * 1.)])
    fr = Frozen(x=x, q=q)
    T.note(x=x, q=q, limit=m, kernel=spec)
    ww = np.ones(n) / n if w is None else w / w.sum()

    def ref(i, j, r):
        if len(j) and f is not None:
            k = f(dist[i, j])
            return None if k.sum() == 0 else (ww[j] * k).sum() * len(j) / k.sum() / ball(1, r)
        return ww[j].sum() / ball(1, r)
    impl = {'leaf_size': int(pick(rng, [1, 4, 40]))} if chance(rng, .5) else {}
    out = DensityEstimationND.by_local_kernel(x, q, max_dx=m, kernel=spec, weight=w, impl_kw=impl)
    for i in range(len(q)):
        j = np.flatnonzero(dist[i] <= m)
        want = ref(i, j, m)
        T.eq(int(out['n_neighbors'][i]), len(j), 'number of neighbours within the radius')
        if want is not None:
            T.close(out['h'][i], want, 'local-kernel density with neighbours at the limit', rtol=1e-9, atol=1e-15)
        T.ev('at_limit', int(np.sum(dist[i] == m)))
    k = int(rng.integers(1, n + 1))
    out = DensityEstimationND.by_knn(x, q, k=k, max_dx=m, kernel=spec, weight=w, impl_kw=impl)
    for i in range(len(q)):
        o = np.argsort(dist[i], kind='stable')
        if k < n and dist[i, o[k]] == dist[i, o[k - 1]]:         # ties: no unique set
            continue
        j = o[:k]
        r = min(dist[i, j].max(), m)
        if r == 0:
            continue
        j = j[dist[i, j] < m]
        T.eq(int(out['n_neighbors'][i]), len(j), 'number of neighbours below the limit')
        T.close(out['neighbor_max_dx'][i], r, 'radius of the neighbourhood', rtol=1e-9)
        want = ref(i, j, r)
        if want is not None:
            T.close(out['h'][i], want, 'nearest-neighbour density with neighbours at the limit', rtol=1e-9, atol=1e-15)
        T.ev('knn_limit')
    fr.check(T)
    T.sig('lattice', x, q, m, k)


def planar(rng, T):
    """Estimators of the two-dimensional plots."""
    n = int(pick(rng, [3, 20, 100, 400]))
    x, y = rng.normal(size=(2, n))
    w = rng.random(n) + .05 if chance(rng, .5) else None
    fr = Frozen(x=x, y=y, **({} if w is None else {'w': w}))
    if chance(rng, .6):
        nx, ny = int(rng.integers(1, 8)), int(rng.integers(1, 8))
        xr, yr = (-2., 1.5), (-1., 2.5)
        xe, ye = np.linspace(*xr, nx + 1), np.linspace(*yr, ny + 1)
        xb, yb = nx, ny
        if chance(rng, .4):
            xb = xe = float_grid(rng, nx + 1, *xr)
            yb = ye = float_grid(rng, ny + 1, *yr)
        oor = pick(rng, ['zero', 'fixed'])
        ins = (x >= xe[0]) & (x <= xe[-1]) & (y >= ye[0]) & (y <= ye[-1])
        if not ins.any():
            return
        est = Histogram2D(x_bins=xb, y_bins=yb, x_range=xr, y_range=yr, out_of_range=oor)
        T.check(est.fit(x, y, w) is est, 'fit returns the estimator')
        H = np.zeros((nx, ny))
        for i in np.flatnonzero(ins):
            H[min(np.sum(xe <= x[i]) - 1, nx - 1), min(np.sum(ye <= y[i]) - 1, ny - 1)] += 1. if w is None else w[i]
        H /= H.sum() * np.diff(xe)[:, None] * np.diff(ye)[None]
        qx, qy = rng.uniform(-3, 3, size=(2, 30))
        qx[0], qy[0] = xe[-1], .5 * (ye[0] + ye[1])
        qx[1], qy[1] = xe[0], ye[-1]
        qx[2], qy[2] = xe[int(rng.integers(nx))], ye[int(rng.integers(ny))]

        def ref(a, b):
            i = int(np.sum(xe <= a)) - 1 - (a == xe[-1])
            j = int(np.sum(ye <= b)) - 1 - (b == ye[-1])
            out = not (0 <= i < nx and 0 <= j < ny)
            if out and oor == 'zero':
                return 0.
            return H[min(max(i, 0), nx - 1), min(max(j, 0), ny - 1)]
        T.ev('hist2d')
        rt = 1e-9
    else:
        k = int(pick(rng, [1, 3, 10, 1000]))
        kw = {} if k == 10 else {'k': k}
        est = KNearestNeighbor2D(**kw)
        T.check(est.fit(x, y, w) is est, 'fit returns the estimator')
        qx, qy = rng.uniform(-3, 3, size=(2, 30))
        kk = min(k, n)

        def ref(a, b):
            d = np.hypot(x - a, y - b)
            j = np.argsort(d)[:kk]
            return (kk if w is None else w[j].sum()) / (np.pi * d[j[-1]] ** 2)
        T.ev('knn2d')
        rt = 1e-7
    z = est.on(qx, qy)
    for i in range(len(qx)):
        T.close(z[i], ref(qx[i], qy[i]), f'{type(est).__name__} density', rtol=rt, atol=1e-13, q=(qx[i], qy[i]))
        T.ev('point')
    ix = pick(rng, ['xy', 'ij', None])
    gx, gy = np.sort(rng.uniform(-3, 3, 4)), np.sort(rng.uniform(-3, 3, 5))
    args = dict(x=gx, y=gy)
    if chance(rng, .4):
        args = dict(x_range=(-2., 1.), y_range=(0., 1.5), n_x=4, n_y=5)
        gx, gy = np.linspace(-2., 1., 4), np.linspace(0., 1.5, 5)
    if ix:
        args['indexing'] = ix
    m = est.on_meshgrid(**args)
    T.close(m.x, gx, 'mesh abscissae')
    T.close(m.y, gy, 'mesh ordinates')
    for i in range(4):
        for j in range(5):
            idx = (i, j) if ix == 'ij' else (j, i)
            T.close([m.x_m[idx], m.y_m[idx], m.z_m[idx]], [gx[i], gy[j], ref(gx[i], gy[j])], 'density on the mesh', rtol=rt, atol=1e-13)
    if chance(rng, .2):
        m, u = est.on_meshgrid(), np.linspace(0., 1., 10)
        T.close([m.x, m.y], [u, u], 'axes of the default mesh')
        T.check(m.z_m.shape == (10, 10), 'shape of the default mesh', got=m.z_m.shape)
        for _ in range(6):
            i, j = rng.integers(10, size=2)
            T.close([m.x_m[i, j], m.y_m[i, j], m.z_m[i, j]], [u[j], u[i], ref(u[j], u[i])], 'density on the default mesh', rtol=rt, atol=1e-13)
        T.ev('default_mesh')
    fr.check(T)
    T.sig('planar', x, y, w)


def levels(rng, T):
    """Contour levels that enclose a probability."""
    import matplotlib.pyplot as plt
    n = int(pick(rng, [30, 100, 300]))
    x, y = rng.normal(size=(2, n)) * pick(rng, [1., 10.])
    w = rng.random(n) + .05 if chance(rng, .4) else None
    fr = Frozen(x=x, y=y)
    fig, ax = plot.subplots(1)
    try:
        nb = pick(rng, [5, 8, (4, 9)])
        kw = {'n_bins': nb}
        nx, ny = (nb, nb) if np.isscalar(nb) else nb
        rg = (x.min(), x.max()), (y.min(), y.max())
        if chance(rng, .4):
            kw['range'] = rg = (np.quantile(x, .05), np.quantile(x, .97)), (np.quantile(y, .03), np.quantile(y, .95))
        tr = None
        if chance(rng, .4):
            kw['z_transform'] = tr = pick(rng, [np.sqrt, np.square, lambda z: 3. * z])
        if chance(rng, .3):
            kw['density_estimator'] = KNearestNeighbor2D(k=5)
        via_axes = chance(rng, .4)
        s = ax.scatter_2d(x, y, weight=w, **kw) if via_axes else Scatter2D(ax, x, y, weight=w, **kw)
        T.check(isinstance(s, Scatter2D), 'the plot is returned')
        xe, ye = np.linspace(*rg[0], nx + 1), np.linspace(*rg[1], ny + 1)
        xc, yc = .5 * (xe[1:] + xe[:-1]), .5 * (ye[1:] + ye[:-1])
        z = s.transformed_density_on_mesh
        T.check(z.shape == (ny, nx), 'shape of the mesh')
        raw = np.array([[s.density_estimator.on(np.array([a]), np.array([b]))[0] for a in xc] for b in yc])
        if 'density_estimator' not in kw:
            H = np.zeros((ny, nx))
            ins = (x >= xe[0]) & (x <= xe[-1]) & (y >= ye[0]) & (y <= ye[-1])
            for i in np.flatnonzero(ins):
                H[min(np.sum(ye <= y[i]) - 1, ny - 1), min(np.sum(xe <= x[i]) - 1, nx - 1)] += 1. if w is None else w[i]
            H /= H.sum() * np.diff(xe)[None] * np.diff(ye)[:, None]
            T.close(raw, H, 'default estimator', rtol=1e-8, atol=1e-12)
        T.close(z, raw if tr is None else tr(raw), 'density on the mesh', rtol=1e-9)
        zs = np.sort(z.ravel())
        a, b = s.cum_prob_mass
        T.close(a, zs, 'sorted densities')
        T.close(b, np.cumsum(zs) / zs.sum(), 'cumulative mass', rtol=1e-9)
        ps = sorted(rng.uniform(.05, .99, size=int(rng.integers(1, 5))))[::-1] if chance(rng, .6) else [.99, .95, .68]
        lev = s.z_level_at_percentile(ps)
        for p, l in zip(ps, lev):
            T.check(l in zs, 'level is not the density of a cell')
            ge, gt = zs[zs >= l].sum() / zs.sum(), zs[zs > l].sum() / zs.sum()
            T.check(ge >= p - 1e-9, 'cells at or above the level do not hold the requested probability', p=p, got=ge)
            T.check(gt <= p + 1e-9, 'level is not the highest one', p=p, got=gt)
            T.ev('level')
        o = s
        if len(np.unique(lev)) == len(lev):     # matplotlib draws distinct levels only
            o = s.contour() if ps == [.99, .95, .68] and chance(rng, .5) else s.contour(ps=ps, use_fill=False)
        T.check(o is s, 'contour returns the plot')
        if s.plot_outs:
            T.close(s.plot_outs[-1].levels, lev, 'levels drawn')
            T.check(not s.plot_outs[-1].filled, 'lines unless asked for areas')
            T.ev('contour')
            T.check(s.plot_outs[-1] in ax._raw.collections, 'contours drawn on the axes')
        if len(lev) > 1 and len(np.unique(lev)) == len(lev) and chance(rng, .5):
            import warnings
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                ckw = pick(rng, [{}, {'colors': ['r', 'g', 'b', 'y']}, {'colors': None, 'cmap': 'viridis'}])
                T.check(s.contour(ps=ps, use_fill=True, **ckw) is s, 'contour returns the plot')
            q = s.plot_outs[-1]
            T.check(q.filled, 'filled contours are areas')
            T.close(q.levels, lev, 'levels of the filled contours')
            T.ev('filled contour')
        mk = {}
        if chance(rng, .5):
            mk = pick(rng, [{'cmap': 'viridis'}, {'vmin': float(z.min()), 'vmax': float(z.max()) + 1.}, {'alpha': .5}, {'edgecolors': 'k'}, {'zorder': 3}])
        T.check(s.mesh(**mk) is s, 'mesh returns the plot')
        q = s.plot_outs[-1]
        T.eq([q.get_cmap().name, q.get_alpha(), q.get_zorder()], [mk.get('cmap', 'jet'), mk.get('alpha'), mk.get('zorder', 1)], 'settings of the mesh')
        if 'vmin' in mk:
            T.eq([float(q.norm.vmin), float(q.norm.vmax)], [mk['vmin'], mk['vmax']], 'limits of the mesh')
        T.close(np.asarray(q.get_array()).reshape(ny, nx), z, 'mesh drawn')
        co = q.get_coordinates()
        T.close(co[0, :, 0], xe, 'mesh edges x', rtol=1e-9, atol=1e-9)
        T.close(co[:, 0, 1], ye, 'mesh edges y', rtol=1e-9, atol=1e-9)
        s.scatter()
        q = s.plot_outs[-1]
        T.close(np.asarray(q.get_offsets()), np.stack([x, y], -1), 'scatter of all points')
        T.check(q in ax._raw.collections and q.axes is ax._raw, 'points drawn on the axes')
        s.scatter(s=3., c='r', alpha=.5)
        q = s.plot_outs[-1]
        T.eq([tuple(q.get_facecolor()[0]), float(q.get_sizes()[0])], [(1., 0., 0., .5), 3.], 'settings of the points')
        if 'density_estimator' not in kw:
            p = float(rng.uniform(.1, .95))
            l = s.z_level_at_percentile([p])[0]
            s.scatter(hidden_in_p=p)
            off = {tuple(v) for v in np.asarray(s.plot_outs[-1].get_offsets())}
            zp = s.density_estimator.on(x, y)
            zp = zp if tr is None else tr(zp)
            l1 = s.z_level_at_percentile([p], id_shift=-1)[0]
            T.check(l1 <= l, 'shifted level is higher')
            for i in range(n):
                dr = (x[i], y[i]) in off
                if zp[i] >= l:
                    T.check(not dr, 'a point inside the region is drawn')
                    T.ev('hidden')
                elif zp[i] < l1:
                    T.check(dr, 'a point outside the region is missing')
                    T.ev('drawn')
    finally:
        plt.close('all')
    fr.check(T)
    T.sig('levels', x, y, w, str(kw))


MONITORS = [
    Monitor('histogram', histogram, 600, 10000, need={'outside': 500, 'inside': 500, 'empty_cell': 100, 'integral': 100}),
    Monitor('local', local, 800, 10000, need={'ball': 500, 'empty': 100}),
    Monitor('knn', knn, 800, 10000, need={'full': 500, 'cut': 200}),
    Monitor('lattice', lattice, 500, 6000, need={'at_limit': 100, 'knn_limit': 300}),
    Monitor('planar', planar, 400, 5000, need={'hist2d': 50, 'knn2d': 40, 'point': 1000}),
    Monitor('levels', levels, 200, 1500, shards=2, need={'level': 100, 'contour': 20, 'filled contour': 5, 'hidden': 100, 'drawn': 100}),
]
