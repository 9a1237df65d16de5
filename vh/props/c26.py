"""C26: compiled kernels under bounds checking, guard zones and heap poison.

The whole process runs with NUMBA_BOUNDSCHECK=1 (every index of every compiled
function is checked) and MALLOC_PERTURB_ (fresh and freed heap blocks are
filled with a pattern); fatal signals are reported by the parent.
"""
import numpy as np
import numba
from pyhipp.numerical import interpolate as I
from pyhipp.stats.binning import BinnedData, EqualSpaceBins, BiSearchBins
from pyhipp.field.cubic_box.mesh import _Mesh, Mesh
from pyhipp.field.cubic_box.field import _Field, Field
from pyhipp.field.cubic_box import mass_assignment as ma
from pyhipp.field.cubic_box import TidalField, TidalClassifier
from pyhipp.field.cubic_box import cosmic_web, smoothing
from pyhipp.field.neighbor.kd_mesh import _PE3Mesh, _PE3, _PE3_from_meshing_points
from . import c10, c11, c15, c17, c18, c19, c20, c22
from ..core import Monitor
from ..gen import pick, chance

RULE = ('every compiled entry point on boundary-hugging inputs (one cell, one node, empty, on the box edge, one ulp beside it, far images, huge values), with inputs and outputs embedded in '
        'guard zones filled with two different poisons; plus the functional workloads of C10, C11, C15, C17-C20 and C22 repeated under the same checks. Identity is the input.')


@numba.njit
def _probe(a, i):
    return a[i]


@numba.njit
def _probe_w(a, i):
    a[i] = 1.


@numba.njit
def _probe_new(n):
    return np.empty(n)


def alive(rng, T):
    """The sanitizers themselves respond."""
    n = int(rng.integers(1, 50))
    a = np.zeros(n)
    T.raises(IndexError, lambda: _probe(a, n + int(rng.integers(3))), 'bounds checker is off')
    T.raises(IndexError, lambda: _probe_w(a, -n - 1 - int(rng.integers(3))), 'bounds checker is off')
    p = _probe_new(100000)
    T.check(np.count_nonzero(p) > 1000, 'heap poison is off')
    T.ev('sanitizer')
    T.sig(n)


POISON = [np.nan, 1e301, -7.25e7]


def guarded(a, poison, pad=5):
    """A copy of a inside a larger buffer; returns (view, verifier)."""
    a = np.asarray(a)
    buf = np.empty([s + 2 * pad for s in a.shape], a.dtype)
    if a.dtype.kind == 'f':
        buf[...] = poison
    else:
        buf[...] = np.iinfo(a.dtype).max if not poison == poison else np.iinfo(a.dtype).min + 3
    sl = tuple(slice(pad, pad + s) for s in a.shape)
    buf[sl] = a
    mask = np.ones(buf.shape, bool)
    mask[sl] = False
    before = buf[mask].tobytes()
    return buf[sl], lambda: buf[mask].tobytes() == before


def compare(T, rng, arrays, fn, what):
    """fn on guarded copies: same result whatever surrounds them, guards intact."""
    ref = None
    for k in range(2):
        p = POISON[k]
        pad = int(rng.integers(1, 9))
        v = {n: guarded(a, p, pad) for n, a in arrays.items()}
        out = fn(**{n: x for n, (x, _) in v.items()})
        out = [np.array(o) for o in (out if isinstance(out, (tuple, list)) else [out])]
        for n, (_, ok) in v.items():
            T.check(ok(), f'{what}: memory around {n!r} was written')
            T.ev('guard')
        if ref is None:
            ref = out
        else:
            T.check(len(ref) == len(out) and all(a.shape == b.shape and a.tobytes() == b.tobytes() for a, b in zip(ref, out)),
                    f'{what}: result depends on memory around its inputs', a=ref[0], b=out[0])
    return ref


def near(rng, edges, shape, span):
    """Values on, one ulp beside, and far beyond the given edges."""
    n = int(np.prod(shape))
    e = rng.choice(np.asarray(edges, float), size=n)
    k = rng.integers(0, 8, size=n)
    x = np.where(k == 0, e, np.where(k == 1, np.nextafter(e, np.inf), np.where(k == 2, np.nextafter(e, -np.inf),
        np.where(k == 3, e + span, np.where(k == 4, e - span, np.where(k == 5, rng.uniform(-1, 2, n) * span,
        np.where(k == 6, -0., e + span * rng.integers(-10**6, 10**6, n))))))))
    return x.reshape(shape)


def nodes_(rng, n):
    return np.cumsum(rng.random(n) + .01) * float(10.**rng.integers(-5, 6))


def search(rng, T):
    """Bisection and interpolation kernels."""
    n = int(pick(rng, [1, 1, 2, 2, 3, 4, 5, 16, 17, 129]))
    x, y = nodes_(rng, n), rng.normal(size=n)
    q = np.concatenate([near(rng, x, (12,), x[-1]), [np.inf, -np.inf, 1e308, -1e308]])
    T.note(n=n, q=q)
    for v in q:
        i = compare(T, rng, dict(x=x), lambda x: I.bisearch(x, v), 'bisearch')[0]
        T.check(-1 <= i < n, 'bisearch index', i=i)
        i = compare(T, rng, dict(x=x), lambda x: I.bisearch_nearest(x, v), 'bisearch_nearest')[0]
        T.check(0 <= i < n, 'nearest index', i=i)
        l, r, a, b = compare(T, rng, dict(x=x), lambda x: I.bisearch_interp_weight(x, v), 'interp_weight')
        T.check(0 <= l < n and 0 <= r < n, 'interpolation indices', l=l, r=r)
        if np.isfinite(v) and abs(v) < 1e300:
            o = compare(T, rng, dict(x=x, y=y), lambda x, y: I.bisearch_interp(x, y, v), 'interp')[0]
            T.check(y.min() - 1e-9 <= o <= y.max() + 1e-9, 'interpolated value')
            compare(T, rng, dict(x=x, y=y), lambda x, y: I.bisearch_interp_fix_oob(x, y, v, -1., 1.), 'interp_fix_oob')
        T.ev('search')
    i = compare(T, rng, dict(x=x, q=q), lambda x, q: I.bisearch_nearest_array(x, q), 'nearest_array')[0]
    T.check(np.all((i >= 0) & (i < n)), 'nearest indices')
    if n >= 2:
        m = int(pick(rng, [2, 3]))
        x2 = nodes_(rng, m)
        tail = pick(rng, [(), (2,)])
        Y = rng.normal(size=(n, m) + tail)
        for v in q[:6]:
            w = float(near(rng, x2, (), x2[-1]))
            if tail == ():
                o = compare(T, rng, dict(x=x, x2=x2, Y=Y), lambda x, x2, Y: I.bisearch_interp_2d(x, x2, Y, float(v), w), 'interp_2d')[0]
                T.check(Y.min() - 1e-9 <= o <= Y.max() + 1e-9, 'interpolated value (2-D)')
        f = compare(T, rng, dict(x=x, y=y, q=q[:8]), lambda x, y, q: [I.Linear(x, y, True).value_at(v) for v in q], 'Linear')
        compare(T, rng, dict(x=x, y=y), lambda x, y: [I.Linear(x, y, False).derivative().value_at(v) for v in x], 'derivative')
    T.sig(x, q)


def counting(rng, T):
    """Binned data written in place."""
    nb = int(pick(rng, [1, 1, 2, 3, 10]))
    tail = pick(rng, [(), (), (2,)])
    if chance(rng, .5):
        bins = EqualSpaceBins((0., 3.), nb)
    else:
        bins = BiSearchBins(nodes_(rng, nb + 1))
    e = bins.x_edges
    x = near(rng, e, (int(pick(rng, [0, 1, 7, 50])),), e[-1])
    h = BinnedData(bins)
    T.note(bins=nb, x=x)
    w = rng.normal(size=x.shape) if chance(rng, .5) else None

    def run(d, **kw):
        h.data = d
        h.add(x, **kw) if w is None else h.add(x, kw.get('w'))
        return h.data
    arrays = dict(d=np.zeros(nb)) | ({} if w is None else dict(w=w))
    out = compare(T, rng, arrays, run, 'BinnedData.add')[0]
    ids = bins.locate(x)
    ok = (ids >= 0) & (ids < nb)
    T.close(out, np.bincount(ids[ok].astype(int), None if w is None else w[ok], nb), 'contents', rtol=1e-9, atol=1e-9)
    T.ev('counted', x.size)
    T.sig(nb, x)


def deposits(rng, T):
    """Deposits and reads on the smallest meshes and at box edges."""
    n, L = int(pick(rng, [1, 1, 2, 3, 4, 9])), float(pick(rng, [1., 100., 1e-3]))
    m = int(pick(rng, [0, 1, 2, 17]))
    x = near(rng, np.arange(n + 1) * (L / n), (m, 3), L)
    w = rng.random(m) if chance(rng, .5) else None
    T.note(n=n, L=L, x=x)
    mesh = _Mesh(n, L)

    def dep(d, x, w=None):
        ma._Linear(_Field(d, mesh)).add(x, w)
        return d
    arrays = dict(d=np.zeros((n, n, n)), x=x) | ({} if w is None else dict(w=w))
    d = compare(T, rng, arrays, dep, 'deposit')[0]
    T.close(d.sum(), float(m if w is None else w.sum()), 'total', rtol=1e-9, atol=1e-9)
    T.check(np.all(d >= -1e-12), 'negative mass')
    f = rng.normal(size=(n, n, n))
    lam = np.sort(rng.normal(size=(n, n, n, 3)), axis=-1)
    mm = Mesh.new(n, L)
    tc = TidalClassifier(lam, mm)

    def read(f, x):
        g = [mesh.x_to_xi_nd(x) if len(x) else np.zeros(0)]
        return g + [tc.web_type_at(x), tc.lam_at(x)]
    cells, types, lams = compare(T, rng, dict(f=f, x=x), read, 'cells')
    if m:
        T.check(cells.min() >= 0 and cells.max() < n, 'cell indices')
        T.eq(types, tc.n_lams[tuple(cells.T)], 'types')
    o = compare(T, rng, dict(f=f, x=x), lambda f, x: _value(f, x, mesh), 'interpolation')[0]
    if m:
        T.check(np.all(o >= f.min() - 1e-9) and np.all(o <= f.max() + 1e-9), 'interpolated outside the range of the field')
    T.ev('deposited', m)
    T.sig(n, L, x)


def _value(f, x, mesh):
    return _reader()._value_at(x, f, ma._LinearShapeFn(mesh))


def _reader():
    for v in vars(cosmic_web).values():
        if isinstance(v, type) and hasattr(v, '_value_at'):
            return v
    raise LookupError('no class with _value_at')


def cells(rng, T):
    """Mesh neighbour search with a single cell, no points, points on edges."""
    L, g = float(pick(rng, [1., 50.])), int(pick(rng, [1, 1, 2, 3, 5]))
    n, m = int(pick(rng, [0, 1, 2, 30])), int(pick(rng, [0, 1, 5]))
    x = near(rng, np.arange(g + 1) * (L / g), (n, 3), L)
    x = np.where(np.abs(x) > 20 * L, 0., x)
    q = near(rng, np.arange(g + 1) * (L / g), (m, 3), L)
    q = np.where(np.abs(q) > 20 * L, L, q)
    r = L * rng.choice([0., 1e-9, .3, 1.2], size=m)
    ms = _PE3Mesh(L, g)
    T.note(L=L, g=g, n=n, q=q, r=r)

    def build(x):
        pe = _PE3_from_meshing_points(ms, x)
        return pe.xs, pe.cell_firsts
    xs, cf = compare(T, rng, dict(x=x), build, 'mesh index')
    T.check(cf[0] == 0 and cf[-1] == n and np.all(np.diff(cf) >= 0), 'cell offsets')

    def query(xs, cf, q, r):
        pe = _PE3(ms, xs, cf)
        c = c20._Collect(q, r, int(m * max(n, 1) * 80 + 10))
        pe.query_points(c)
        return c.who, np.nan_to_num(c.where, nan=-3.), np.array([c.n, c.lost])
    compare(T, rng, dict(xs=xs, cf=cf, q=q, r=r), query, 'mesh query')
    T.ev('queried', m)
    T.sig(L, g, x, q)


def fourier(rng, T):
    """Smoothing and gravity on the smallest and odd meshes, guarded fields."""
    n, L = int(pick(rng, [1, 2, 3, 4, 5, 7])), 10.
    d = rng.random((n, n, n)) + .1
    r = float(pick(rng, [0., .5, 30.]))
    T.note(n=n, r=r)
    mm = Mesh.new(n, L)
    k = int(rng.integers(3))
    if k == 0:
        m = pick(rng, ['gaussian', 'tophat'])
        cls = pick(rng, [c for c in vars(smoothing).values() if isinstance(c, type) and c.__name__ == 'FourierSpaceSmoothing'])
        out = compare(T, rng, dict(d=d), lambda d: (lambda s: (s.delta_x, s.delta_k, s.delta_sm_k, s.delta_sm_x))(
            cls(r_sm=r, method=m).run(Field.new_by_data(d, mm))), 'smoothing')
    else:
        out = compare(T, rng, dict(d=d), lambda d: (lambda s: (s.delta_k, s.phi_k, s.T_x, s.lam))(
            TidalField(r_sm=r).run(Field.new_by_data(d, mm))), 'tidal field')
    T.check(all(np.isfinite(o).all() and np.abs(o).max() < 1e30 for o in out), 'non-finite or uninitialised output')
    T.ev('field')
    T.sig(n, r, d)


def _again(mod, name, quick, thorough, shards=1):
    m = next(m for m in mod.MONITORS if m.name == name)
    return Monitor(f'c26.{mod.__name__[-3:]}.{name}', m.fn, quick, thorough, shards=shards, setup=m.setup, about='under bounds checks: ' + m.about)


MONITORS = [
    Monitor('c26.alive', alive, 20, 100, need={'sanitizer': 20}),
    Monitor('c26.search', search, 120, 4000, need={'search': 500, 'guard': 2000}),
    Monitor('c26.counting', counting, 400, 8000, need={'counted': 1000}),
    Monitor('c26.deposits', deposits, 400, 8000, need={'deposited': 500}),
    Monitor('c26.cells', cells, 300, 6000, need={'queried': 300}),
    Monitor('c26.fourier', fourier, 150, 3000, need={'field': 100}),
    _again(c10, 'bins', 150, 2000),
    _again(c11, 'search', 150, 3000),
    _again(c11, 'kernels', 150, 3000),
    _again(c11, 'linear', 150, 3000),
    _again(c15, 'compiled', 40, 600),
    _again(c17, 'deposit', 150, 3000),
    _again(c17, 'interpolate', 150, 3000),
    _again(c17, 'meshes', 150, 2000),
    _again(c18, 'plain', 80, 1500),
    _again(c18, 'density', 80, 1500),
    _again(c18, 'windows', 80, 1500),
    _again(c19, 'tidal', 60, 1000),
    _again(c19, 'classify', 80, 1500),
    _again(c20, 'mesh', 120, 2500),
    _again(c22, 'c22.transfer', 200, 4000),
    _again(c22, 'c22.spectrum', 12, 300),
]
