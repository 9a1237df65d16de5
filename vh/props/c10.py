"""C10: grids, bins and histograms."""
import bisect, math
import numpy as np
from pyhipp.core.dataproc.grid import Grid1d, GridMd
from pyhipp.stats.binning import Bin, Hist1D, EqualSpaceBins, BiSearchBins, BinnedData
from ..core import Monitor, same
from ..gen import pick, chance, float_grid, Frozen

RULE = ('edge sets (uniform, uneven, duplicate edges, one bin, huge and tiny scales) with values placed on edges, one ulp beside edges, outside, infinite and '
        'generic; locations are compared with bisection on the object\'s own edges, contents with exact bookkeeping. Identity is (class, edges, policy).')


def values(rng, e, n):
    """Values that hug the edges."""
    e = np.asarray(e, float)
    lo, hi = e[0], e[-1]
    span = hi - lo or 1.
    v = rng.uniform(lo - .3 * span, hi + .3 * span, size=n)
    k = rng.random(n)
    on = e[rng.integers(len(e), size=n)]
    v = np.where(k < .25, on, v)
    v = np.where((k >= .25) & (k < .35), np.nextafter(on, np.inf), v)
    v = np.where((k >= .35) & (k < .45), np.nextafter(on, -np.inf), v)
    v = np.where((k >= .45) & (k < .47), np.inf, v)
    v = np.where((k >= .47) & (k < .49), -np.inf, v)
    v = np.where((k >= .49) & (k < .51), 1e300, v)
    return v


def ref_locate(e, x):
    return bisect.bisect_right([float(a) for a in e], float(x)) - 1


def make_bins(rng):
    if chance(rng, .5):
        lo = float(pick(rng, [0., -1., 3.3, -1e6, 1e-8, 100.]))
        hi = lo + float(pick(rng, [1., .1, 7.7, 1e5, 3.]))
        n = int(pick(rng, [1, 2, 3, 7, 10, 33]))
        rg = pick(rng, [(lo, hi), [lo, hi], np.array([lo, hi])])
        if chance(rng, .1):
            return EqualSpaceBins(), np.linspace(0, 1, 11), 10
        ref = lo + (hi - lo) * np.arange(n + 1) / n
        ref[-1] = hi
        return EqualSpaceBins(rg, n), ref, n
    n = int(rng.integers(1, 12))
    e = float_grid(rng, n + 1, -5, 5 * 10. ** rng.integers(0, 3))
    if chance(rng, .15) and n > 2:
        e[1] = e[2]
    order = rng.permutation(n + 1) if chance(rng, .4) else np.arange(n + 1)
    arg = e[order]
    return BiSearchBins(arg if chance(rng, .7) else arg.tolist()), e, n


def bins(rng, T):
    """Location, policies, centres, contents."""
    b, e_ref, n = make_bins(rng)
    e = np.asarray(b.x_edges)
    T.note(cls=type(b).__name__, edges=e_ref)
    T.check(b.n_bins == n and e.shape == (n + 1,), 'number of bins or edges', n=b.n_bins)
    T.close(e, e_ref, 'edges', rtol=1e-12, atol=1e-12 * max(abs(e_ref).max(), 1))
    T.check(e[0] == e_ref[0] and e[-1] == e_ref[-1], 'outer edges must be exact')
    T.close(b.x_centers, .5 * (e[1:] + e[:-1]), 'centres', rtol=1e-13)
    x = values(rng, e, int(rng.integers(1, 60)))
    fr = Frozen(x=x, e=e)
    loc = b.locate(x)
    T.check(loc.shape == x.shape and loc.dtype.kind == 'i', 'location must be integers of the same shape')
    for v, i in zip(x, loc):
        w = ref_locate(e, v)
        T.check(i == w, 'value located in another bin', x=v, got=int(i), want=w)
        if 0 <= i < n:
            T.check(e[i] <= v < e[i + 1], 'value outside its bin', x=v, bin=int(i))
            T.ev('on_edge' if v == e[i] else 'inside')
        else:
            T.check(v < e[0] if i == -1 else v >= e[-1], 'out-of-range policy', x=v, got=int(i))
            T.ev('outside')
    lb = b.locate_bound(x)
    T.check(all(int(q) == min(max(int(i), 0), n - 1) for q, i in zip(lb, loc)), 'bounded location')
    T.check(all(int(q) == min(int(i), n - 1) for q, i in zip(b.locate_bound(x, lower=False), loc)), 'upper-bounded location')
    T.check(all(int(q) == max(int(i), 0) for q, i in zip(b.locate_bound(x, upper=False), loc)), 'lower-bounded location')
    fin = x[np.abs(x) < 1e100]
    for v, i in zip(fin, b.locate_nearest(fin)):
        d = np.abs(e - v)
        T.check(0 <= i <= n and d[i] <= d.min() * (1 + 1e-9) + 1e-300, 'not the nearest edge', x=v, got=int(i))
        T.ev('nearest')
    v = float(fin[0]) if len(fin) else 0.
    T.check(int(b.locate(v)) == ref_locate(e, v) and int(b.locate_bound(v)) == min(max(ref_locate(e, v), 0), n - 1), 'scalar location')
    r = b.to_simple_repr()
    T.check(r['n_bins'] == n and abs(r['x_span'] - (e[-1] - e[0])) <= 1e-9 * abs(e[-1] - e[0]), 'description of the bins')
    if isinstance(b, EqualSpaceBins):
        T.check(b.x_range[0] == e[0] and b.x_range[1] == e[-1], 'range')
        T.close(b.x_step, (e[-1] - e[0]) / n, 'step', rtol=1e-12)
        T.close(b.x_span, e[-1] - e[0], 'span', rtol=1e-12)
        T.raises(AssertionError, lambda: EqualSpaceBins((1., 1.), 3), 'empty range must be refused')
        T.raises(AssertionError, lambda: EqualSpaceBins((0., 1.), 0), 'zero bins must be refused')
    else:
        T.raises(AssertionError, lambda: BiSearchBins([1.]), 'one edge must be refused')
    # contents
    tail = pick(rng, [(), (2,)])
    dt = pick(rng, [float, int, 'f4']) if not tail else float
    d = BinnedData(b, dtype=dt, shape=tail)
    T.check(d.data.shape == (n,) + tail and d.data.dtype == np.dtype(dt) and not d.data.any(), 'initial content')
    d2 = BinnedData(b, dtype=dt, shape=tail)
    total = [0.] * n
    for _ in range(int(rng.integers(1, 4))):
        x = values(rng, e, int(rng.integers(0, 30)))
        if tail:
            w = rng.integers(-5, 6, size=(len(x),) + tail).astype(float)
        else:
            w = None if chance(rng, .5) else rng.integers(-5, 6, size=len(x)).astype(float if dt != int else int)
        fr2 = Frozen(x=x, w=w)
        d.add(x) if w is None else d.add(x, w)
        for j, v in enumerate(x):
            i = ref_locate(e, v)
            if 0 <= i < n:
                total[i] = total[i] + (1. if w is None else w[j])
        fr2.check(T)
        for i in range(n):
            T.check(np.all(np.abs(np.asarray(d.data[i], float) - np.asarray(total[i])) < 1e-6), 'bin content differs from the samples added', i=i,
                    got=d.data[i], want=total[i])
        T.ev('added', len(x))
    T.check(not d2.data.any(), 'another accumulator on the same bins changed')
    T.check(same(d.to_simple_repr()['data'], d.data) and d.to_simple_repr()['bins']['n_bins'] == n, 'description of binned data')
    T.check(BinnedData().data.shape == (10,), 'default bins')
    fr.check(T)
    T.sig(type(b).__name__, e_ref, tail, str(dt))
    T.state('occupation', [bool(np.any(t)) for t in total])


def specs(rng, T):
    """Range and sub-bin specifications; combination; overlapped histograms."""
    n = int(rng.integers(2, 40))
    x = rng.normal(size=n) if chance(rng, .7) else rng.integers(-5, 6, size=n)
    fr = Frozen(x=x)
    arg = x if chance(rng, .7) else x.tolist()
    T.eq(tuple(float(v) for v in Bin.parse_p_range_spec(arg)), (float(x.min()), float(x.max())), 'full range')
    p = tuple(sorted(rng.random(2)))

    def quant(q):
        s = np.sort(x.astype(float))
        h = q * (n - 1)
        i = int(math.floor(h))
        return s[i] + (h - i) * (s[min(i + 1, n - 1)] - s[i])
    got = Bin.parse_p_range_spec(arg, p_range=p)
    T.close(np.array(got, float), np.array([quant(p[0]), quant(p[1])]), 'quantile range', rtol=1e-9, atol=1e-12)
    R = (-1., .7)
    T.eq(tuple(Bin.parse_p_range_spec(arg, range=R)), R, 'explicit range')
    T.eq(tuple(Bin.parse_p_range_spec(None, range=R)), R, 'explicit range without data')
    got = Bin.parse_p_range_spec(arg, range=R, p_range=p)
    T.close(np.array(got, float), np.array([max(R[0], quant(p[0])), min(R[1], quant(p[1]))]), 'intersection of ranges', rtol=1e-9, atol=1e-12)
    T.raises(AssertionError, lambda: Bin.parse_p_range_spec(None), 'no data and no range must be refused')
    T.raises(AssertionError, lambda: Bin.parse_p_range_spec(None, R, p), 'quantiles without data must be refused')
    fr.check(T)
    # sub-bins
    nb, sub = int(rng.integers(1, 9)), int(rng.integers(1, 6))
    e = float_grid(rng, nb + 1)
    fr = Frozen(e=e)
    fine = Bin.insert_sub_bins_into_edges(e if chance(rng, .6) else e.tolist(), sub)
    T.check(len(fine) == nb * sub + 1, 'number of refined edges', got=len(fine))
    for i in range(nb):
        for j in range(sub + 1):
            T.close(fine[i * sub + j], e[i] + (e[i + 1] - e[i]) * j / sub, 'refined edge', rtol=1e-12, atol=1e-12, i=i, j=j)
    T.eq(np.asarray(fine)[::sub], e, 'original edges must be kept exactly')
    ie = np.cumsum(rng.integers(1, 5, size=nb + 1))        # integer edges have fractional sub-edges
    for arg in (ie, ie.tolist()):
        f2 = np.asarray(pick(rng, [lambda: Bin.insert_sub_bins_into_edges(arg, sub), lambda: Bin.parse_sub_bin_spec(arg, sub)[0]])(), float)
        T.close(f2, np.array([ie[k // sub] + (ie[min(k // sub + 1, nb)] - ie[k // sub]) * (k % sub) / sub for k in range(nb * sub + 1)]),
                'refined integer edges', rtol=1e-12, edges=ie, sub=sub)
    b, s, (lo, hi) = Bin.parse_sub_bin_spec(e, sub)
    T.check(same(np.asarray(b), np.asarray(fine)) and s == sub and lo == e[0] and hi == e[-1], 'sub-bin specification by edges')
    b, s, r = Bin.parse_sub_bin_spec(nb, sub, (e[0], e[-1]))
    T.check(b == nb * sub and s == sub and tuple(r) == (e[0], e[-1]), 'sub-bin specification by number')
    T.raises(AssertionError, lambda: Bin.parse_sub_bin_spec(nb, sub), 'number without range must be refused')
    T.raises(AssertionError, lambda: Bin.parse_sub_bin_spec(e, sub, (0., 1.)), 'edges with range must be refused')
    T.raises(AssertionError, lambda: Bin.parse_sub_bin_spec(nb, 0, (0., 1.)), 'zero refinement must be refused')
    st = int(rng.integers(1, nb + 1))
    c, w = Bin.edges_to_centers(e, st), Bin.edges_to_widths(e.tolist(), st)
    T.check(len(c) == len(w) == nb + 1 - st, 'number of strided bins')
    for i in range(nb + 1 - st):
        T.close(c[i], (e[i] + e[i + st]) / 2, 'centre', rtol=1e-12, atol=1e-13)
        T.close(w[i], e[i + st] - e[i], 'width', rtol=1e-12, atol=1e-13)
    T.close(Bin.edges_to_centers(e), (e[1:] + e[:-1]) / 2, 'centres', rtol=1e-12, atol=1e-13)
    T.close(Bin.edges_to_widths(e), np.diff(e), 'widths', rtol=1e-12, atol=1e-13)
    y = rng.integers(-9, 10, size=(int(rng.integers(1, 9)),) + pick(rng, [(), (2,)]))
    y = y.astype(pick(rng, [float, int]))
    m = int(rng.integers(1, len(y) + 1))
    g = Bin.combine_adjacent_bins(y, m)
    T.check(len(g) == len(y) - m + 1, 'number of combined bins')
    for i in range(len(g)):
        T.eq(g[i], y[i:i + m].sum(axis=0), 'combined bins', i=i, m=m)
    if y.dtype.kind == 'f':
        y2 = y.copy()
        at = int(rng.integers(len(y2)))
        y2[at] = pick(rng, [np.nan, np.inf, -np.inf, 1e200, 1e17])
        g = Bin.combine_adjacent_bins(y2, m)
        for i in range(len(g)):
            T.check(np.allclose(g[i], y2[i:i + m].sum(axis=0), rtol=1e-12, atol=1e-12, equal_nan=True), 'combined bins depend on content outside the window',
                    i=i, m=m, at=at, y=y2, got=g[i])
        T.ev('window')
    T.raises(AssertionError, lambda: Bin.combine_adjacent_bins(y, len(y) + 1), 'too many bins to combine must be refused')
    fr.check(T)
    # overlapped histogram
    rg = (float(e[0]), float(e[-1]))
    data = values(rng, e, int(rng.integers(0, 60)))
    data = data[np.isfinite(data)]
    wt = None if chance(rng, .5) else rng.integers(1, 9, size=len(data)).astype(float)
    fr = Frozen(data=data, wt=wt, e=e)
    if chance(rng, .5):
        B, S, RR = nb * sub, sub, rg
        ed = np.linspace(*rg, nb * sub + 1)
    else:
        B, S, RR = np.asarray(fine), sub, None
        ed = np.asarray(fine)
    H = Hist1D.from_overlapped_bins(data, B, S, RR, wt)
    T.close(H['sub_e'], ed, 'sub-bin edges', rtol=1e-12, atol=1e-12)
    ed = np.asarray(H['sub_e'])
    sh = np.zeros(len(ed) - 1)
    near = 0
    for k, v in enumerate(data):
        if ed[0] <= v <= ed[-1]:
            i = min(ref_locate(ed, v), len(ed) - 2)
            sh[i] += 1 if wt is None else wt[k]
    T.close(H['sub_h'], sh, 'sub-bin histogram', atol=1e-9)
    T.close(H['h'], np.array([sh[i:i + S].sum() for i in range(len(sh) - S + 1)]), 'overlapped histogram', atol=1e-9)
    T.close(H['x'], (ed[S:] + ed[:-S]) / 2, 'overlapped centres', rtol=1e-12, atol=1e-12)
    T.close(H['dx'], ed[S:] - ed[:-S], 'overlapped widths', rtol=1e-12, atol=1e-12)
    fr.check(T)
    T.ev('overlapped')
    T.sig('specs', e, sub, st, m, n)


def grids(rng, T):
    """1-D and N-D grids."""
    def one():
        k = int(rng.integers(5))
        n = int(rng.integers(1, 7))
        a = float_grid(rng, n, -2, 3)
        if k == 0:
            return Grid1d(a), a
        if k == 1:
            return a.tolist(), a
        if k == 2:
            lo, hi = sorted(rng.normal(size=2))
            return slice(lo, hi, complex(0, n)), np.array([lo + (hi - lo) * i / max(n - 1, 1) for i in range(n)])
        if k == 3 and n > 2:
            a[1] = a[2]
        return a, a
    nd = int(rng.integers(1, 4))
    specs_ = [one() for _ in range(nd)]
    if chance(rng, .5):
        g = GridMd(*[s for s, _ in specs_])
    else:
        key = tuple(s for s, _ in specs_)
        g = GridMd.at[key] if nd > 1 or chance(rng, .5) else GridMd.at[key[0]]
    ref = [r for _, r in specs_]
    T.check(g.n_dims == nd and tuple(g.n_locs) == tuple(len(r) for r in ref), 'grid shape')
    for a, r in zip(g.locs_1d, ref):
        T.close(a, r, 'grid nodes', rtol=1e-12, atol=1e-12)
    nodes = [np.array(a) for a in g.locs_1d]
    L, XY = g.locs, g.locs_xy
    shp = tuple(len(r) for r in ref)
    T.check(all(l.shape == shp for l in L) and len(L) == nd, 'mesh shape')
    for idx in np.ndindex(*shp):
        for d in range(nd):
            T.check(L[d][idx] == nodes[d][idx[d]], 'mesh node', idx=idx, d=d)
            j = (idx[1], idx[0]) + idx[2:] if nd > 1 else idx
            T.check(XY[d][j] == nodes[d][idx[d]], 'xy mesh node', idx=idx, d=d)
    T.check(all(tuple(a) == (n[0], n[-1]) for a, n in zip(g.extent, nodes)), 'extent')
    if all(len(n) > 1 for n in nodes):
        c = g.centers
        T.check(all(np.allclose(a, .5 * (n[1:] + n[:-1]), rtol=1e-12, atol=1e-13) for a, n in zip(c.locs_1d, nodes)), 'centres')
    m = int(rng.integers(0, 12))
    x = np.stack([values(rng, n, m) for n in nodes], axis=-1)
    fr = Frozen(x=x)
    loc = g.locate(x)
    T.check(len(loc) == nd, 'location per dimension')
    for d in range(nd):
        for i in range(m):
            T.check(int(loc[d][i]) == ref_locate(nodes[d], x[i, d]), 'grid location', x=x[i, d], got=int(loc[d][i]))
            T.ev('located')
        g1 = Grid1d(nodes[d])
        if m:
            T.check(int(g1.locate(float(x[0, d]))) == ref_locate(nodes[d], x[0, d]), 'scalar grid location')
        T.check(g1.n_locs == len(nodes[d]) and tuple(g1.extent) == (nodes[d][0], nodes[d][-1]), '1-D grid')
    # application of a function
    seen = []

    def f(p):
        seen.append(p.shape)
        if two == 0:
            return p @ np.arange(1, nd + 1)
        out = np.stack([p[:, 0], p[:, -1]], 1)
        if two == 2:
            return np.asfortranarray(out)
        if two == 3:
            return np.stack([p[:, -1], p[:, 0]], 1)[:, ::-1]
        if two == 4:
            return np.stack([p[:, 0], p[:, -1]]).T
        return out
    two = int(rng.integers(5))
    xy = chance(rng, .5)
    A = g.applied(f, xy_indexing=xy) if not (xy and chance(rng, .5)) else g.applied(f)
    mesh = XY if xy else L
    T.check(seen == [(int(np.prod(shp)), nd)], 'function must be called once with all nodes', seen=seen)
    if two == 0:
        T.close(A.values, sum((k + 1) * l for k, l in enumerate(mesh)), 'applied function', rtol=1e-12, atol=1e-12)
    else:
        T.close(A.values, np.stack([mesh[0], mesh[-1]], -1), 'applied vector function', rtol=1e-12)
    T.check(all(same(a, b) for a, b in zip(A.locs, mesh)) and all(same(a, b) for a, b in zip(A.locs_1d, nodes)), 'nodes of an applied function')
    fo = chance(rng, .4)
    B = g.applied(lambda *p: tuple(np.asfortranarray(v) if fo else v for v in (p[0] * 2, p[-1] + 1)), xy_indexing=xy, stack_input=False)
    T.close(B.values[0], mesh[0] * 2, 'applied function, first output', rtol=1e-12)
    T.close(B.values[1], mesh[-1] + 1, 'applied function, second output', rtol=1e-12)
    fr.check(T)
    # grid from data
    k = int(rng.integers(1, 4))
    D = [rng.normal(size=int(rng.integers(2, 20))) for _ in range(k)]
    nn = pick(rng, [5, [int(v) for v in rng.integers(2, 6, size=k)], np.int64(4)])
    plo, phi = pick(rng, [(0., 1.), (.1, .9), (.25, .5)])
    gk = dict(p_lo=plo, p_hi=phi)
    if chance(rng, .3):
        gk.pop('p_hi')
        phi = 1.
    if chance(rng, .3):
        gk.pop('p_lo')
        plo = 0.
    G = GridMd.from_data_range(*D, n=nn, **gk)
    for d in range(k):
        w = np.quantile(D[d], [plo, phi])
        N = nn if np.isscalar(nn) else nn[d]
        T.close(G.locs_1d[d], np.linspace(w[0], w[1], int(N)), 'grid from data', rtol=1e-12, atol=1e-13)
    T.check(GridMd.from_data_range(*D).n_locs == (32,) * k, 'default grid from data')
    T.raises(AssertionError, lambda: Grid1d([1., 0.]), 'descending nodes must be refused')
    T.raises(AssertionError, lambda: Grid1d([]), 'empty grid must be refused')
    r = repr(g)
    T.check('GridMd' in r and str(nd) in r, 'printed form')
    T.sig('grid', shp, ref, m, xy, two)


MONITORS = [
    Monitor('bins', bins, 1200, 8000, shards=2, need={'on_edge': 300, 'inside': 500, 'outside': 300, 'nearest': 500}),
    Monitor('specs', specs, 900, 6000, need={'overlapped': 100}),
    Monitor('grids', grids, 600, 4000, need={'located': 300}),
]
