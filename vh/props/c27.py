"""C27: calls leave inputs and global state alone, and repeat to the same answer."""
import dataclasses
import hashlib
import os
import pickle
import random
import sys
import warnings
import numpy as np
import matplotlib as mpl
import matplotlib.pyplot as plt
from pyhipp import stats, plot
from pyhipp.core import DataDict, DataTable, Num, dataproc as dp
from pyhipp.core.dataproc import frame
from pyhipp.core.dataproc.mask import Mask
from pyhipp.core.dataproc.data_structs import Array as DA
from pyhipp.core.dataproc.iter import Chunks
from pyhipp.core.dataproc import filter as flt
from pyhipp.core.dataproc.grid import Grid1d, GridMd
from pyhipp.core.arrays import Array as CArray
from pyhipp.numerical import interpolate as I
from pyhipp.stats import reduction as R, kernel as K
from pyhipp.stats.binning import Bin, Hist1D, EqualSpaceBins, BiSearchBins, BinnedData
from pyhipp.stats.prob_dist import ProbTransToNorm
from pyhipp.stats.preprocessing import Standardize
from pyhipp.stats.summary import SummaryFloatArray1D
from pyhipp.stats.sampling import Bootstrap
from pyhipp.stats.stacking import Stack
from pyhipp.stats.regression import KernelRegressionND
from pyhipp.stats.density_estimation import DensityEstimationND
from pyhipp.astro.stats.lss import BinnedVolumeDensity
from pyhipp.astro.cosmology.model import predefined
from pyhipp.astro.quantity import UnitSystem
from pyhipp.astro.coords import cvt
from pyhipp.field import cubic_box as cb
from pyhipp.field.cubic_box.cosmic_web import FieldInterpolator
from pyhipp.field.cubic_box.fft import NdRealFFT
from pyhipp.field.neighbor.kd_tree import PE
from pyhipp.group_theory.point_group import Group
from pyhipp.plot.two_dim import Histogram2D, KNearestNeighbor2D, Scatter2D
from pyhipp.plot import RuntimeConfig, Color, ColorSeq
from pyhipp.io import h5
from pyhipp.io.yaml import ConfigFileParser
from ..core import Monitor
from ..gen import pick, chance
from .. import fakehmf

RULE = ('random interleavings of about a hundred public computing calls on shared inputs and objects, each called at least twice per history; byte-exact digests of every input, option mapping, '
        'object attribute and of all process-wide state before and after every call. Identity is the sequence of calls with their inputs.')


# ---------------------------------------------------------------- digests

def digest(v, depth=6):
    h = hashlib.blake2b(digest_size=10)
    _feed(h, v, depth, set())
    return h.hexdigest()


def _feed(h, v, depth, seen):
    if isinstance(v, np.ma.MaskedArray):
        h.update(b'MA')
        _feed(h, np.ma.getmaskarray(v), depth, seen)
        _feed(h, v.filled(0), depth, seen)
    elif hasattr(v, 'unit') and hasattr(v, 'value'):
        h.update(str(v.unit).encode())
        _feed(h, np.asarray(v.value), depth, seen)
    elif isinstance(v, np.ndarray):
        h.update(f'{v.dtype}{v.shape}'.encode())
        if v.dtype.kind == 'O':
            for x in v.ravel():
                _feed(h, x, depth - 1, seen)
        else:
            h.update(np.ascontiguousarray(v).tobytes())
    elif isinstance(v, np.generic):
        h.update(f'{v.dtype}'.encode() + v.tobytes())
    elif v is None or isinstance(v, (bool, int, float, complex, str, bytes, slice, range)):
        h.update(f'{type(v).__name__}:{v!r}'.encode())
    elif depth <= 0 or id(v) in seen:
        h.update(type(v).__name__.encode())
    elif isinstance(v, (list, tuple)):
        h.update(f'{type(v).__name__}{len(v)}['.encode())
        for x in v:
            _feed(h, x, depth - 1, seen)
    elif isinstance(v, (set, frozenset)):
        h.update(repr(sorted(map(repr, v))).encode())
    elif isinstance(v, DataTable):
        h.update(b'table')
        for k in v.keys():
            h.update(str(k).encode())
            _feed(h, v[k], depth - 1, seen)
    elif isinstance(v, (dict, DataDict)) or hasattr(v, 'items') and hasattr(v, 'keys'):
        h.update(f'{type(v).__name__}{{'.encode())
        for k, x in v.items():
            h.update(repr(k).encode())
            _feed(h, x, depth - 1, seen)
    elif dataclasses.is_dataclass(v):
        for f in dataclasses.fields(v):
            _feed(h, getattr(v, f.name), depth - 1, seen)
    elif type(v).__module__.startswith('pyhipp') and hasattr(v, '__dict__'):
        seen.add(id(v))
        h.update(type(v).__name__.encode())
        for k, x in sorted(vars(v).items()):
            h.update(k.encode())
            _feed(h, x, depth - 1, seen)
    else:
        h.update(type(v).__name__.encode())


def ours(o):
    return not isinstance(o, (DataDict, DataTable, type)) and type(o).__module__.startswith('pyhipp') and hasattr(o, '__dict__')


def attributes(o, path='', above=(), depth=4):
    """Digest of every attribute of a library object, nested ones included; what is
    computed later and kept (new attributes) is not part of it."""
    if not ours(o):
        return {}
    out = {}
    for k, v in vars(o).items():
        if 'cache' in k.lower() or any(v is a for a in above):
            continue
        if ours(v):
            if depth:
                out.update(attributes(v, f'{path}{k}.', (*above, o), depth - 1))
        elif not isinstance(v, (list, tuple)) or not any(ours(x) for x in v):
            out[path + k] = digest(v, 3)
        elif depth:
            for i, x in enumerate(v):
                out.update(attributes(x, f'{path}{k}[{i}].', (*above, o), depth - 1))
    return out


_mutable = None


def library_state():
    """Mutable defaults of functions and mutable tables of classes."""
    global _mutable
    if _mutable is None:
        _mutable = []
        seen = set()

        def func(name, f):
            f = getattr(f, '__func__', f)
            f = getattr(f, 'fget', f)
            f = getattr(f, 'func', f)
            for d in (getattr(f, '__defaults__', None) or ()) + tuple((getattr(f, '__kwdefaults__', None) or {}).values()):
                if isinstance(d, (dict, list, set, np.ndarray, DataDict)) and id(d) not in seen:
                    seen.add(id(d))
                    _mutable.append((name, d))
        for mn, m in sorted(sys.modules.items()):
            if not mn.startswith('pyhipp') or m is None:
                continue
            for n, v in sorted(vars(m).items()):
                if isinstance(v, type) and v.__module__ == mn:
                    for an, a in vars(v).items():
                        func(f'{mn}.{n}.{an}', a)
                        if isinstance(a, (dict, list, np.ndarray)) and 'cache' not in an.lower() and not an.startswith('__'):
                            _mutable.append((f'{mn}.{n}.{an}', a))
                elif callable(v) and getattr(v, '__module__', None) == mn:
                    func(f'{mn}.{n}', v)
        _mutable += [('reductions', R.predefined), ('kernels', K.predefined)]
    return {n: digest(v) for n, v in _mutable}


def process_state():
    import astropy.cosmology
    return {
        'numpy random state': digest([np.asarray(x) if isinstance(x, np.ndarray) else x for x in np.random.get_state()]),
        'python random state': hashlib.blake2b(repr(random.getstate()).encode()).hexdigest(),
        'floating-point error mode': repr(np.geterr()) + repr(np.geterrcall()),
        'print options': repr({k: v for k, v in np.get_printoptions().items()}),
        'warning filters': repr(warnings.filters),
        'plotting defaults': hashlib.blake2b(repr(sorted((k, repr(v)) for k, v in mpl.rcParams.items())).encode()).hexdigest(),
        'working directory': os.getcwd(),
        'environment': repr(sorted(os.environ.items())),
        'import path': repr(sys.path),
        'recursion limit': sys.getrecursionlimit(),
        'standard output': (id(sys.stdout), id(sys.stderr)),
        'file mode mask': _umask(),
        'default cosmology': str(astropy.cosmology.default_cosmology.get()),
    }


def _umask():
    m = os.umask(0o22)
    os.umask(m)
    return m


# ---------------------------------------------------------------- operations

OPS = []


def op(weight=1):
    def deco(f):
        OPS.extend([f] * weight)
        return f
    return deco


def data(rng, n=None, d=None, kind=None):
    n = n or int(rng.integers(3, 40))
    a = rng.random((n,) if d is None else (n, d))
    if chance(rng, .3):
        a = np.round(a * 8) / 8
    k = int(rng.integers(3))
    if k == 1:
        a = np.asfortranarray(a)
    elif k == 2:
        b = np.zeros((2 * n,) + a.shape[1:])
        b[::2] = a
        a = b[::2]
    return a


class World:
    """Inputs and objects shared by the calls of one history."""

    def __init__(self, rng):
        self.rng = rng
        n = int(rng.integers(8, 40))
        self.n = n
        self.x = data(rng, n) * 4 - 1
        self.y = data(rng, n)
        self.w = data(rng, n) + .1
        self.mask = rng.random(n) < .7
        self.ints = rng.integers(0, 5, n)
        self.pts = np.clip(data(rng, n, 3), 0, .999)
        self.qs = data(rng, 7, 3)
        self.two = data(rng, 6, 5)
        self.w2 = data(rng, 6, 5) + .1
        self.m2 = rng.random((6, 5)) < .7
        self.edges = np.cumsum(rng.random(6) + .1) - 1.
        self.z = np.sort(rng.random(4) * 3)
        self.k = 10.**rng.uniform(-2, 1, 4)
        self.lgm = rng.uniform(1., 4., 4)
        m = int(pick(rng, [2, 3, 4]))
        self.mesh = cb.Mesh.new(m, 10.)
        self.rho = rng.random((m, m, m)) + .5
        self.field = cb.Field.new_by_data(self.rho, self.mesh)
        self.table = DataTable({'x': self.x.copy(), 'v': data(rng, n, 3), 'i': self.ints.copy()})
        self.dict = DataDict({'a': {'b': self.y.copy(), 'c': 'text'}, 'd': 3, 'e/f': {'g': self.two.copy()}} if False else
                             {'a': {'b': self.y.copy(), 'c': 'text'}, 'd': 3, 'g': self.two.copy()})
        self.kw = {}


REFUSE = (TypeError, AttributeError, ValueError, IndexError, KeyError)


def each(*fs):
    """All of the calls in turn; a refused one is part of the answer."""
    def f(**inputs):
        out = []
        for g in fs:
            try:
                out.append(g(**inputs))
            except REFUSE as e:
                out.append('refused: ' + type(e).__name__)
        return out
    return f


@op()
def o_bound(w, rng):
    lo, hi = float(rng.random() - .5), float(rng.random() + .5)
    return lambda x: Num.bound(x, lo, hi), dict(x=pick(rng, [w.x, w.two, w.ints]))


@op()
def o_safe(w, rng):
    f = pick(rng, [Num.safe_lg, Num.safe_ln, Num.norm, Num.normalize])
    return (lambda x: f(x)), dict(x=pick(rng, [w.x, w.two, w.pts]))


@op()
def o_safe_many(w, rng):
    f = pick(rng, [Num.safe_lg, Num.safe_ln])
    return (lambda x, y: f(x, y, lo=1e-3)), dict(x=w.x, y=w.two)


@op()
def o_div(w, rng):
    return (lambda x, y: Num.safe_div(x, y)), dict(x=w.y, y=w.x)


@op()
def o_mask(w, rng):
    f = each(lambda m, x, y: Mask.on_arrays(m, x, y), lambda m, x, y: Mask.bool_to_idx(m),
         lambda m, x, y: Mask.on_dict({'x': x, 'y': y}, m), lambda m, x, y: Mask.zip([m, ~m], [x, y]))
    return f, dict(m=w.mask, x=w.x, y=w.y)


@op()
def o_filter(w, rng):
    f = flt.Range(0., .5)
    return (lambda f, x: f(x)), dict(f=f, x=w.x)


@op()
def o_polar(w, rng):
    k = int(rng.integers(3))
    if k == 0:
        return (lambda t, p: frame.Polar.unit_vec_to_cart(t, p)), dict(t=w.x, p=w.y)
    if k == 1:
        return (lambda x, v: frame.Polar.rt_to_cart(x, v)), dict(x=w.pts + .1, v=w.pts)
    return (lambda t: frame.Polar.unit_vec_to_cart_2d(t)), dict(t=w.x)


@op(2)
def o_box(w, rng):
    B = frame.PeriodicBox
    x = w.pts * 2 - .5
    k = int(rng.integers(3))
    if k == 0:
        wh = pick(rng, [None, rng.random(x.shape) < .5])
        return (lambda x, where: B.shift_in(x, 1., where)), dict(x=x, where=wh)
    if k == 1:
        return (lambda x, r: B.shift_to(x, r, 1.)), dict(x=x, r=w.pts[:1])
    return (lambda x: B.test_bound(x, 1.)), dict(x=x)


@op()
def o_grid(w, rng):
    if 'grid' not in w.kw:
        w.kw['grid'] = GridMd(w.edges, np.linspace(0, 1, 4))
    return (lambda g, x: (g.locate(x), g.centers.locs_1d, g.extent, g.locs_xy)), dict(g=w.kw['grid'], x=w.pts[:, :2])


@op()
def o_grid_applied(w, rng):
    g = GridMd(w.edges, np.linspace(0, 1, 4))
    return (lambda g: g.applied(lambda x: x.sum(-1)).values), dict(g=g)


@op()
def o_grid1(w, rng):
    return (lambda e, x: Grid1d(e).locate(x)), dict(e=w.edges, x=w.x)


@op()
def o_interp(w, rng):
    if 'lin' not in w.kw:
        w.kw['ly'] = data(rng, 6)
        w.kw['lin'] = I.Linear(w.edges, w.kw['ly'], True)
    f = w.kw['lin']
    return (lambda x, y, e, f: [f.value_at(float(v)) for v in x] + [f.derivative().value_at(float(v)) for v in x]), dict(x=w.x, y=w.kw['ly'], e=w.edges, f=f)


@op()
def o_bisearch(w, rng):
    return (lambda e, x: (I.bisearch_nearest_array(e, x), [I.bisearch(e, float(v)) for v in x])), dict(e=w.edges, x=w.x)


@op(3)
def o_reduce(w, rng):
    if 'reds' not in w.kw:
        w.kw['reds'] = [R.Count(), R.Sum(), R.Mean(), R.StdDev(), R.Median(), R.Quantile([.1, .5]), R.Quantile('1sigma'), R.Errorbar()]
    r = pick(rng, w.kw['reds'])
    two = chance(rng, .5)
    x, wt, m = (w.two, w.w2, w.m2) if two else (w.x, w.w, w.mask)
    return (lambda r, x, weight, mask: r(x, weight, mask)), dict(r=r, x=x, weight=pick(rng, [None, wt]), mask=pick(rng, [None, m]))


@op()
def o_reduce_spec(w, rng):
    spec = [('quantile', {'ps': [.5, .2]}), 'mean', ('sd', {'empty_fill': -1.})]
    return (lambda s, x: [f(x) for _, f in R.predefined.iter(s)]), dict(s=spec, x=w.x)


@op(2)
def o_regress(w, rng):
    kern = pick(rng, [None, ('gaussian', {'sigma': .2}), 'tophat'])
    red = pick(rng, ['mean', ['errorbar', 'count'], ('quantile', {'ps': [.1, .9]})])
    ikw, qkw = {'leaf_size': 5}, {}
    if chance(rng, .5):
        return (lambda x, y, q, weight, kern, red, ikw, qkw: KernelRegressionND.by_knn(
            x, y, q, k=3, max_dx=.6, reduce=red, kernel=kern, weight=weight, impl_kw=ikw, impl_query_kw=qkw)), dict(
            x=w.pts, y=w.y, q=w.qs, weight=pick(rng, [None, w.w]), kern=kern, red=red, ikw=ikw, qkw=qkw)
    return (lambda x, y, q, weight, kern, red, ikw, qkw: KernelRegressionND.by_local_kernel(
        x, y, q, max_dx=.4, reduce=red, kernel=kern, weight=weight, impl_kw=ikw)), dict(
        x=w.pts, y=w.y, q=w.qs, weight=pick(rng, [None, w.w]), kern=kern, red=red, ikw=ikw, qkw=qkw)


@op()
def o_fraction(w, rng):
    return (lambda x, m, q, wt: KernelRegressionND.masked_fraction_by_knn(x, m, q, k=4, weight=wt, min_count=2)), dict(
        x=w.pts, m=w.mask, q=w.qs, wt=pick(rng, [None, w.w]))


@op(2)
def o_density(w, rng):
    k = int(rng.integers(3))
    kern = pick(rng, [None, ('gaussian', {'sigma': .5}), ('tophat', {'radius': .5})])
    wt = pick(rng, [None, w.w])
    if k == 0:
        g = GridMd(np.linspace(0, 1, 4), np.linspace(0, 1, 3), np.linspace(0, 1, 3))
        return (lambda x, q, g, wt: DensityEstimationND.by_histogram(x, q, g, weight=wt)), dict(x=w.pts, q=w.qs, g=g, wt=wt)
    if k == 1:
        return (lambda x, q, kern, wt, ik: DensityEstimationND.by_local_kernel(x, q, .5, kern, wt, ik)), dict(x=w.pts, q=w.qs, kern=kern, wt=wt, ik={})
    return (lambda x, q, kern, wt, ik: DensityEstimationND.by_knn(x, q, 4, .5, kern, wt, ik)), dict(x=w.pts, q=w.qs, kern=kern, wt=wt, ik={})


@op()
def o_two_dim(w, rng):
    if 'h2' not in w.kw:
        w.kw['h2'] = Histogram2D(x_bins=4, y_bins=3)
        w.kw['h2'].fit(w.x, w.y, w.w)
        w.kw['k2'] = KNearestNeighbor2D(k=3)
        w.kw['k2'].fit(w.x, w.y, w.w)
    e = pick(rng, [w.kw['h2'], w.kw['k2']])
    return (lambda e, x, y: (e.on(x, y), e.on_meshgrid(x, y))), dict(e=e, x=w.y, y=w.x)


@op()
def o_two_dim_fit(w, rng):
    c = pick(rng, [lambda: Histogram2D(x_bins=4, y_bins=3), lambda: KNearestNeighbor2D(k=3)])
    return (lambda x, y, wt: c().fit(x, y, wt).on(x, y)), dict(x=w.x, y=w.y, wt=pick(rng, [None, w.w]))


@op(2)
def o_bins(w, rng):
    if 'bins' not in w.kw:
        w.kw['bins'] = [BiSearchBins(w.edges), EqualSpaceBins((-1., 2.), 7)]
    b = pick(rng, w.kw['bins'])
    return (lambda b, x: (b.locate(x), b.locate_bound(x), b.locate_nearest(x), b.x_edges, b.x_centers)), dict(b=b, x=w.x)


@op()
def o_unsorted_edges(w, rng):
    e = w.edges[::-1].copy()
    return (lambda e, x: BiSearchBins(e).locate(x)), dict(e=e, x=w.x)


@op()
def o_binned(w, rng):
    def f(e, x, wt):
        b = BinnedData(BiSearchBins(e))
        b.add(x, wt)
        return b.data
    return f, dict(e=w.edges, x=w.x, wt=pick(rng, [None, w.w]))


@op(2)
def o_bin_tools(w, rng):
    f = each(lambda e, x, wt: Bin.insert_sub_bins_into_edges(e, 3), lambda e, x, wt: Bin.edges_to_centers(e, 2), lambda e, x, wt: Bin.edges_to_widths(e),
         lambda e, x, wt: Bin.combine_adjacent_bins(e, 3), lambda e, x, wt: Hist1D.from_overlapped_bins(x, e, 2, None, wt),
         lambda e, x, wt: (Bin.parse_p_range_spec(x, None, (.1, .9)), Bin.parse_sub_bin_spec(e, 2)))
    return f, dict(e=w.edges, x=w.x, wt=w.w)


@op()
def o_sum(w, rng):
    def f(x):
        s = SummaryFloatArray1D(x)
        return s.mean, s.stddev, s.median, s._1sigma, s._2sigma, s._3sigma, s.size
    return f, dict(x=w.x)


@op()
def o_stack(w, rng):
    return Stack.mean_and_sd, dict(x=w.two)


@op()
def o_standardize(w, rng):
    def f(x, y):
        s = Standardize(x)
        return s(y), s(y, backward=True), s.mean, s.sd
    return f, dict(x=w.pts, y=w.qs)


@op()
def o_standardize_fitted(w, rng):
    if 'std' not in w.kw:
        w.kw['std'] = Standardize(w.pts)
    return (lambda s, y: (s(y), s(y, backward=True))), dict(s=w.kw['std'], y=w.qs)


@op()
def o_to_norm(w, rng):
    if 'tn' not in w.kw:
        w.kw['tx'] = w.x + 1e-6 * np.arange(w.n)
        w.kw['tn'] = ProbTransToNorm(w.kw['tx'])
    return (lambda t, x: (t.forw(x), t.back(t.forw(x)), t.forw(x, with_norm=False))), dict(t=w.kw['tn'], x=w.kw['tx'])


@op()
def o_kernel(w, rng):
    if 'kern' not in w.kw:
        w.kw['kern'] = [K.Gaussian(.4), K.Tophat(.5)]
    return (lambda k, d: k(d)), dict(k=pick(rng, w.kw['kern']), d=w.y)


@op()
def o_bootstrap(w, rng):
    seed = int(rng.integers(1000))
    return (lambda x, y, d: Bootstrap.resampled_call(lambda x, y, s: {'m': (x * y).sum() * s}, [{'x': x, 'y': y}], ['m'], stats_kw=d, rng=seed, n_resample=4)), dict(
        x=w.x, y=w.y, d={'s': 2.})


@op()
def o_lss(w, rng):
    bins = pick(rng, [w.edges, 4])
    return (lambda x, wt, b: BinnedVolumeDensity.from_raw(x, 3., b, 2, weights=wt, n_bootstrap=3, rng=5)), dict(x=w.x, wt=pick(rng, [None, w.w]), b=bins)


@op()
def o_rng(w, rng):
    s = int(rng.integers(100))

    def f():
        r = stats.Rng(s)
        return r.uniform(size=3), r.normal(size=2), r.choice(5, 3), r.permutation(4), r.uniform_sphere(3), r.uniform_circle(2)
    return f, {}


@op()
def o_rng_perm(w, rng):
    return (lambda x: (stats.Rng(3).permutation(x), stats.Rng(3).choice(x, 4))), dict(x=w.x)


@op()
def o_noise(w, rng):
    lg = chance(rng, .5)
    return (lambda x: stats.RandomNoise(.3, noise_in_lg=lg, rng=4).add_to(x, 2)), dict(x=w.y)


@op()
def o_deposit(w, rng):
    def f(x, wt):
        d = cb.DensityField(1., 4)
        d.add(x, wt)
        return d.data
    return f, dict(x=w.pts, wt=pick(rng, [None, w.w]))


@op(2)
def o_smooth(w, rng):
    r, m = float(rng.random() * 3 + .1), pick(rng, ['gaussian', 'tophat'])
    if chance(rng, .5):
        if 'fs' not in w.kw:
            w.kw['fs'] = cb.FourierSpaceSmoothing(r_sm=r, method=m)
        return (lambda s, f, d: s.run(f)), dict(s=w.kw['fs'], f=w.field, d=w.rho)
    if 'sm' not in w.kw:
        w.kw['sm'] = cb.FFTSmoothing(r_sm=r, method=m)
    return (lambda s, f, d: s.run(f).data), dict(s=w.kw['sm'], f=w.field, d=w.rho)


@op()
def o_tidal(w, rng):
    if 'tf' not in w.kw:
        w.kw['tf'] = cb.TidalField(r_sm=1.)
    return (lambda t, f, d: t.run(f)), dict(t=w.kw['tf'], f=w.field, d=w.rho)


@op()
def o_classify(w, rng):
    if 'tc' not in w.kw:
        lam = np.sort(rng.normal(size=w.rho.shape + (3,)), axis=-1)
        w.kw['lam'] = lam
        w.kw['tc'] = cb.TidalClassifier(lam, w.mesh)
    t = w.kw['tc']
    return (lambda t, x, lam: (t.web_type_at(x), t.lam_at(x), t.f_knot, t.f_void, t.is_sheet, t.grid_points_of_web_type('f'))), dict(t=t, x=w.pts * 10, lam=w.kw['lam'])


@op()
def o_field_at(w, rng):
    if 'fi' not in w.kw:
        w.kw['fi'] = FieldInterpolator(w.field)
    return (lambda f, x, d: f.value_at(x)), dict(f=w.kw['fi'], x=w.pts * 10, d=w.rho)


@op()
def o_fft(w, rng):
    def f(d):
        t = NdRealFFT(d.shape)
        k = t.forward(d)
        c = k.copy()
        b = t.backward(k)
        return c, b, k
    return f, dict(d=w.rho)


@op()
def o_tree(w, rng):
    if 'pe' not in w.kw:
        w.kw['pe'] = PE(w.pts, 1.)
    q = np.clip(w.qs[int(rng.integers(len(w.qs)))], 0., .999)
    return (lambda p, q, x: p.query_r_1(q, .3, return_d=True)), dict(p=w.kw['pe'], q=q, x=w.pts)


@op()
def o_group(w, rng):
    if 'grp' not in w.kw:
        w.kw['grp'] = Group.create('3d')
        w.kw['grp2'] = Group.create('2d')
    g = w.kw['grp']
    i, j = (int(v) for v in rng.integers(len(g), size=2))
    return (lambda g, g2, x: (g[i](x), g[i].combined(g[j])(x), [o.mat for o in g2.combined(g2)])), dict(g=g, g2=w.kw['grp2'], x=w.qs)


@op(4)
def o_cosmology(w, rng):
    m = predefined[pick(rng, ['tng', 'eagle'])]
    f = each(lambda m, z: (m.big_hubble(z), m.omega_m(z), m.omega_l(z), m.omega_b(z)), lambda m, z: (m.rho_crit(z), m.rho_matter(z)),
         lambda m, z: m.age(z), lambda m, z: (m.distances.comoving_at(z), m.distances.luminosity_at(z), m.distances.angular_diameter_at(z)),
         lambda m, z: m.times.lookback_at(z), lambda m, z: m.redshifts.at_comoving(z * 1000. + 10), lambda m, z: m.to_simple_repr(),
         lambda m, z: [p.value for p in m.params], lambda m, z: m.distances.distance_modulus_at(z + .1))
    return f, dict(m=m, z=w.z)


@op(3)
def o_halo(w, rng):
    t = predefined[pick(rng, ['tng', 'eagle'])].halo_theory

    def props(t, lg, z):
        v = t.vir_props_mean(10.**lg, z=.5)
        return dataclasses.asdict(v) if dataclasses.is_dataclass(v) else None
    f = each(lambda t, lg, z: (t.lg_sigma(lg), t.dlg_sigma_dlg_m(lg)), lambda t, lg, z: t.lg_delta_c(z), lambda t, lg, z: (t.rho_vir_mean(200., z), t.rho_vir_crit(200., z)),
         lambda t, lg, z: t.r_vir(10.**lg, t.rho_vir_mean()), lambda t, lg, z: (t.nfw_profile.mu(lg), t.nfw_profile.c_to_v_max2vir(lg), t.nfw_profile.v_max2vir_to_c(lg * .1 + 1.1)),
         lambda t, lg, z: t.v_vir(10.**lg, lg, to_kmps=True))
    return f, dict(t=t, lg=w.lgm, z=w.z)


@op(2)
def o_mass_function(w, rng):
    t = predefined[pick(rng, ['tng', 'eagle'])].halo_theory
    lo, z, d = float(rng.uniform(-1, 2)), float(rng.uniform(0, 3)), pick(rng, ['200crit', '200mean', 'custom'])
    kw = pick(rng, [None, {}, {'hmf_model': 'SMT'}, {'z': 7., 'mdef_params': {'overdensity': 500.}}])
    if kw is None:
        return (lambda t: (lambda v: (v.lgM, v.dn_dlgM, fakehmf.CALLS[-1]))(t.mass_function(lo, lo + 1., .1, z, d))), dict(t=t)
    return (lambda t, kw: (lambda v: (v.lgM, v.dn_dlgM, fakehmf.CALLS[-1]))(t.mass_function(lo, lo + 1., .1, z, d, impl_kw=kw))), dict(t=t, kw=kw)


@op()
def o_units(w, rng):
    us = UnitSystem.create_for_cosmology(.7)
    return (lambda u: (u.c_gravity, u.c_light_speed, u.u_v_to_kmps, repr(u))), dict(u=us)


@op(2)
def o_table(w, rng):
    f = each(lambda t, m, i: t.subset(m), lambda t, m, i: t.subset(i), lambda t, m, i: t['x', 'v'], lambda t, m, i: t.to_dict(),
         lambda t, m, i: (t.copy(), repr(t), len(t)), lambda t, m, i: pickle.loads(pickle.dumps(t)))
    return f, dict(t=w.table, m=w.mask, i=w.ints)


@op(2)
def o_dict(w, rng):
    f = each(lambda d: d['a/b'], lambda d: d['a/c', 'd'], lambda d: (d.copy(), repr(d)), lambda d: d | {'new': 1}, lambda d: d.get('a/zz', 7))
    return f, dict(d=w.dict)


@op(2)
def o_h5(w, rng):
    path = os.path.join(os.environ['VH_CASEDIR'], f'c27_{int(rng.integers(10**9))}.h5')
    name = pick(rng, ['dict', 'table'])
    sub = chance(rng, .5)

    def f(d):
        h5.File.dump_to(path, {'in': d} if sub else d, f_flag='w')
        out = h5.File.load_from(path)
        os.remove(path)
        return out
    return f, dict(d=getattr(w, name))


@op()
def o_yaml(w, rng):
    text = 'a: {b: [1, 2], c: x}\nd: 3\n'
    p = os.path.join(os.environ['VH_CASEDIR'], 'c27.yaml')
    with open(p, 'w') as fp:
        fp.write(text)
    return (lambda i, k: ConfigFileParser(p, [], i).get(k)), dict(i=['a'], k=['b', 'd'])


@op()
def o_cvt(w, rng):
    return (lambda x: [getattr(cvt, n)(*a) for n, a in _cvt_calls()]), dict(x=w.x)


def _cvt_calls():
    out = []
    for n, v in vars(cvt).items():
        if callable(v) and getattr(v, '__module__', '') == cvt.__name__ and 'dms' in n:
            out.append((n, ('1:2:3',)))
    return out


@op()
def o_carray(w, rng):
    return (lambda x: (CArray(x).sorted(), CArray(x).argsort(), repr(CArray(x)))), dict(x=w.x)


@op(2)
def o_carray_more(w, rng):
    ax, kind = pick(rng, [None, 0, 1, -1]), pick(rng, [None, 'stable'])
    f = each(lambda a: (CArray(a).flatten(), CArray(a).flatten(copy=False)), lambda a: (CArray(a).copied(), CArray(a, copy=False), CArray(a, dtype=float)),
         lambda a: CArray(a).sorted(axis=ax, kind=kind), lambda a: CArray(a).argsort(axis=ax, kind='stable'),
         lambda a: (repr(CArray(a)), CArray(a).to_simple_repr()['data'], CArray(a).shape, CArray(CArray(a)), len(CArray(a))))
    return f, dict(a=pick(rng, [w.two, w.pts, w.m2]))


@op(2)
def o_structs(w, rng):
    f = each(lambda c, x, m: (DA.count_to_offset(c), DA.count_to_offset(c, has_end=False), DA.count_to_offset_pairs(c)),
         lambda c, x, m: (DA.as_array(x), DA.as_array(x, None, c, copy=False), DA.as_array(c, x)),
         lambda c, x, m: (list(Chunks.ranges_by_sizes(c)), list(Chunks.slices_by_sizes(c, x)), list(Chunks.slices_by_sizes(c, x, m))),
         lambda c, x, m: (Mask.idx_to_bool(7, c), Mask.bool_to_idx(m), Mask.on_array(m, x), Mask.on_array(c, x, copy=True)),
         lambda c, x, m: (Mask.zip([m, ~m], [x, x * 2.], default=pick(np.random.default_rng(len(c)), [None, 1.])), Mask.on_dict({'a': x}, c, copy=True)))
    return f, dict(c=w.ints, x=w.x, m=w.mask)


@op()
def o_mask_put(w, rng):
    def f(a, s, m):
        b = np.array(a)
        Mask.put(b, s, m)
        return b
    return f, dict(a=w.x, s=w.y, m=w.mask)


@op()
def o_grid_data(w, rng):
    n = pick(rng, [4, [3, 5]])
    return (lambda x, y: GridMd.from_data_range(x, y, p_lo=.1, p_hi=.9, n=n)), dict(x=w.x, y=w.y)


@op(2)
def o_grid_out(w, rng):
    """A function of the nodes with outputs of several shapes and layouts."""
    k, xy, st = int(rng.integers(4)), chance(rng, .5), chance(rng, .7)

    def g(*p):
        x = p[0][..., 0] if st else p[0]
        y = p[0][..., -1] if st else p[-1]
        return [lambda: x * 2 + y, lambda: np.stack([x, y]).T if st else (x, y), lambda: np.asfortranarray(np.stack([x, y, x * y], -1)) if st else [y],
                lambda: np.stack([x, y, x], -1)[..., ::-1] if st else x][k]()
    return (lambda e, u: GridMd(e, u).applied(g, xy_indexing=xy, stack_input=st)), dict(e=w.edges, u=np.linspace(0., 1., 4))


@op()
def o_halo_props(w, rng):
    t = predefined[pick(rng, ['tng', 'eagle'])].halo_theory
    crit, z = chance(rng, .5), pick(rng, [None, 1.5])

    def f(lg, fac):
        m = 10.**lg
        v = (t.vir_props_crit if crit else t.vir_props_mean)(m, *([fac] if z is None else []), **({} if z is None else {'z': z}))
        return dataclasses.asdict(v) if dataclasses.is_dataclass(v) else v, v.t_dyn
    return f, dict(lg=w.lgm, fac=np.array([200., 180., 500., 1000.]))


@op()
def o_volumes(w, rng):
    r = float(rng.random() + .1)
    return (lambda d: (K.Tophat(r).volume(3, .5), K.Gaussian(r)(d), K.Tophat(r)(d))), dict(d=w.two)


@op()
def o_fractions(w, rng):
    def f(lam, x):
        t = cb.TidalClassifier(lam, w.mesh, lam_th=.1)
        return [getattr(t, f'{p}_{n}') for p in ('f', 'is') for n in ('knot', 'filament', 'sheet', 'void')], t.web_type_at(x), t.lam_at(x), [t.grid_points_of_web_type(n) for n in ('knot', 's', 'void', 'f')]
    if 'lam2' not in w.kw:
        w.kw['lam2'] = np.sort(np.random.default_rng(w.n).normal(size=w.rho.shape + (3,)), axis=-1)
    return f, dict(lam=w.kw['lam2'], x=w.pts * 10)


@op()
def o_fields(w, rng):
    def f(d, x):
        F = cb.Field.new_by_data(d, w.mesh)
        r = F.copied()
        return r.data, F.data, FieldInterpolator(F).value_at(x), F.shape, F.n_dims
    return f, dict(d=w.rho, x=w.pts * 10)


@op(2)
def o_run_fields(w, rng):
    k, r = int(rng.integers(4)), float(rng.random() * 3 + .1)
    m = pick(rng, ['gaussian', 'tophat'])
    f = [lambda d: cb.FFTSmoothing(r_sm=r, method=m).run(cb.Field.new_by_data(d, w.mesh)), lambda d: cb.FourierSpaceSmoothing(r_sm=r, method=m).run(cb.Field.new_by_data(d, w.mesh)),
         lambda d: cb.TidalField(r_sm=r, correct_shape=pick(np.random.default_rng(0), ['cic'])).run(cb.Field.new_by_data(d, w.mesh)), lambda d: NdRealFFT(d.shape).backward(NdRealFFT(d.shape).forward(d))][k]
    return f, dict(d=w.rho)


@op(2)
def o_table_more(w, rng):
    f = each(lambda a, b, c: DataTable({'a': a, 'b': b}).concat({'a': b, 'b': a}, {'b': b, 'a': a}), lambda a, b, c: (DataTable({'a': a, 'c': c}).col_stacked(), DataTable({'a': a, 'b': b}).row_stacked()),
         lambda a, b, c: (DataTable({'a': a}).iloc[::-1], DataTable({'a': a}, copy=False).iloc[:3], DataTable({'a': a, 'c': c}).iloc[[0, 2, 1]]),
         lambda a, b, c: (DataTable({'a': a, 'b': b, 'c': c}).subcol(('c', 'a')), DataTable({'a': a, 'c': c}).subset(a > 0, copy=False)),
         lambda a, b, c: DataTable({'a': a, 'c': c}).to_dict_of_list(), lambda a, b, c: DataTable({'a': a}) | {'a': b, 'c': c},
         lambda a, b, c: (lambda t: (t.update({'z': c}), t.__setitem__(('x', 'y'), (a, b)), t.to_dict(), repr(t)))(DataTable({'q': b})))
    return f, dict(a=w.x, b=w.y, c=w.pts)


@op(2)
def o_h5_arrays(w, rng):
    path = os.path.join(os.environ['VH_CASEDIR'], f'c27_{int(rng.integers(10**9))}.h5')
    k = int(rng.integers(4))

    def f(a, b, i):
        with h5.File(path, 'w') as fp:
            if k == 0:
                for n, v in (('a', a), ('b', b), ('i', i)):
                    fp.datasets.create(n, v)
            elif k == 1:
                h5.File.dump_to(os.path.join(os.path.dirname(path), 'sub_' + os.path.basename(path)), {'a': a, 'g': {'b': b}, 'i': i}, f_flag='w')
            elif k == 2:
                fp.attrs.create('a', a)
                fp.attrs.dump({'b': b, 'i': i})
                fp.attrs['a'] = a[::-1]
            else:
                fp.dump({'a': a, 'g': {'b': b, 'h': {'i': i}}})
            out = {n: np.array(d[()]) for n, d in fp._raw.items() if hasattr(d, 'dtype')}
            at = {n: np.array(v) for n, v in fp._raw.attrs.items()}
            back = fp.load()
        if k == 1:
            s = os.path.join(os.path.dirname(path), 'sub_' + os.path.basename(path))
            back = h5.File.load_from(s)
            os.remove(s)
        os.remove(path)
        return out, at, back
    return f, dict(a=w.x, b=w.two, i=w.ints)


@op(2)
def o_write_dataset(w, rng):
    path = os.path.join(os.environ['VH_CASEDIR'], f'c27_{int(rng.integers(10**9))}.h5')

    def f(a, b):
        with h5.File(path, 'w') as fp:
            d = fp.datasets.create('d', b)
            d[:2] = b[1:3]
            e = fp.datasets.create('e', a)
            e[...] = a[::-1]
            out = [d[()], e[()], d[1:3], e[::2]]
        os.remove(path)
        return out
    return f, dict(a=w.x, b=w.two)


@op()
def o_bootstrap_values(w, rng):
    seed = int(rng.integers(1000))
    return (lambda x, y, wt: Bootstrap.resampled_call(lambda x, y, u: {'m': (x * y).sum(), 'v': np.sort(u)[:2], 'n': len(u)}, [{'x': x, 'y': y}, {'u': wt}], ['m', 'v', 'n'], rng=seed, n_resample=3)), dict(
        x=w.x, y=w.y, wt=pick(rng, [w.w, w.pts]))


@op()
def o_rng_arrays(w, rng):
    s, k = int(rng.integers(100)), int(rng.integers(4))

    def f(x, p):
        r = stats.Rng(s)
        if k == 0:
            return r.choice(x, 5, p=p / p.sum()), r.choice(x, 3, replace=False)
        if k == 1:
            return r.permutation(x), r.random(3), r.standard_normal(2)
        if k == 2:
            y = np.array(x)
            r.shuffle(y)
            return y
        return r.normal(x, p), r.uniform(x, x + p), stats.RandomNoise(.2, rng=s).add_to(x)
    return f, dict(x=w.x, p=w.w)


@op()
def o_fit_objects(w, rng):
    """Estimators asked several times after one fit."""
    k = int(rng.integers(3))
    g = GridMd(np.linspace(0, 1, 4), np.linspace(0, 1, 3), np.linspace(0, 1, 3))

    def f(x, y, q, wt):
        if k == 0:
            e = DensityEstimationND.by_histogram(x, q, g, weight=wt)
            return e
        if k == 1:
            return KernelRegressionND.by_knn(x, y, q, k=4, weight=wt), KernelRegressionND.by_knn(x, y, q, k=2, reduce=['mean', 'sd'])
        return KernelRegressionND.by_local_kernel(x, y, q, max_dx=.7, weight=wt, reduce=['count', 'median'])
    return f, dict(x=w.pts, y=w.y, q=w.qs, wt=w.w)


@op()
def o_two_dim_weighted(w, rng):
    k = int(rng.integers(2))
    return (lambda x, y, wt, e, u: (Histogram2D(x_bins=e, y_bins=u) if k else KNearestNeighbor2D(k=4)).fit(x, y, wt).on_meshgrid(e, u)), dict(x=w.x, y=w.y, wt=w.w, e=w.edges, u=np.linspace(0., 1., 5))


@op(2)
def o_plot_arrays(w, rng):
    k = int(rng.integers(10))

    def f(x, y, wt, e, t):
        _, axs = plot.subplots((1, 2))
        ax = axs[0]
        if k == 0:
            ax.plot(x, y).fill_between(x, y, wt)
        elif k == 1:
            ax.errorbar(x, y, wt)
        elif k == 2:
            ax.errorbar(x, y, (wt, y))
        elif k == 3:
            ax.errorfill(x, y, wt)
        elif k == 4:
            ax.hist(x, bins=e, weights=wt)
        elif k == 5:
            ax.scatter(x, y, s=wt)
        elif k == 6:
            ax.hist(x, bins=3, weights=y).hist(y, bins=e)
        elif k == 7:
            ax.errorfill(x, y, (wt, y))
        elif k == 8:
            ax.plot(t, t)
        else:
            ax.stairs(wt[:len(e) - 1], e)
        r = ax._raw
        out = ([ln.get_xydata() for ln in r.lines], [np.asarray(c.get_offsets()) for c in r.collections], [p.vertices for c in r.collections for p in c.get_paths()],
               [np.ma.getdata(c.get_array()) for c in [*r.collections, *r.images] if c.get_array() is not None], [(p.get_path().vertices, p.get_transform().transform_point((0, 0)).tolist()) for p in r.patches][:20])
        plt.close('all')
        return out
    return f, dict(x=w.x, y=w.y, wt=w.w, e=w.edges, t=w.two)


@op(3)
def o_plot(w, rng):
    k = int(rng.integers(9))
    fmt = {'c': 'r', 'lw': 2}

    def f(x, y, wt, e, t, kw):
        fig, axs = plot.subplots((1, 2), space=.1)
        ax = axs[0]
        r = None
        if k == 0:
            ax.c('r').plot(x, y, **kw)
        elif k == 1:
            ax.scatter(x, y, **kw)
        elif k == 2:
            ax.errorbar(x, y, wt, **kw)
        elif k == 3:
            ax.errorfill(x, y, (wt, y))
        elif k == 4:
            ax.hist(x, bins=e)
        elif k == 5:
            ax.fill_between(x, y, wt)
        elif k == 6:
            ax.stairs(wt[:5], e)
        elif k == 7:
            axs.lim([0, 1], [0, 2]).label('x', 'y').leg()
        else:
            s = Scatter2D(ax, x, y)
            s.scatter()
            r = s.density_on_mesh if not callable(s.density_on_mesh) else None
        n = [type(c).__name__ for c in ax._raw.get_children()]
        d = [ln.get_xydata() for ln in ax._raw.lines]
        plt.close('all')
        return n, d, r
    return f, dict(x=w.x, y=w.y, wt=w.w, e=w.edges, t=fmt, kw={'alpha': .5})


@op()
def o_config(w, rng):
    c = {'lines': {'linewidth': 1.5}, 'axes': {'labelsize': 9}}

    def f(c, d):
        r = RuntimeConfig(c)
        r.update({'font': {'size': 3}})
        r.use_stylesheets('mathtext-it', set_global=False)
        return {k: v for k, v in r.config_dict.items()}
    return f, dict(c=c, d=RuntimeConfig.default_config_dict)


@op()
def o_color(w, rng):
    return (lambda c: (Color(c, a=.3).get_rgba(), Color('C1').alpha(.2).get_rgba(), ColorSeq.predefined('dark2').get_rgba(), ColorSeq.from_cmap('jet', 3, .5).get_rgba(), ColorSeq([c, 'k']).get_rgba())), dict(c=[.1, .2, .3])


def repeats(rng, T):
    """Histories of interleaved calls."""
    w = World(rng)
    calls = []
    for _ in range(int(rng.integers(3, 8))):
        f = pick(rng, OPS)
        fn, inputs = f(w, rng)
        calls.append((f.__name__, fn, inputs))
        if chance(rng, .5):
            calls.append(calls[-1])
    order = list(rng.integers(len(calls), size=len(calls) * 2)) + list(range(len(calls)))
    order = [int(i) for i in rng.permutation(order)]
    results, hist = {}, []
    for n, _, _ in calls:
        T.state('calls', n)
    T.note(calls=[calls[i][0] for i in order])
    p0, l0 = process_state(), library_state()
    everything = {}
    for n, fn, inputs in calls:
        everything.update({id(v): (n, k, v) for k, v in inputs.items()})
    for i in order:
        n, fn, inputs = calls[i]
        hist.append(n)
        before = {k: (attributes(v), digest(v) if not attributes(v) else None) for k, v in inputs.items()}
        res = fn(**inputs)
        for k, v in inputs.items():
            a, d = before[k]
            if a:
                now = attributes(v)
                for name in a:
                    T.check(now.get(name) == a[name], f'{n}: attribute {name!r} of {k!r} changed', history=hist)
                T.ev('object_intact')
            else:
                T.check(digest(v) == d, f'{n}: input {k!r} was modified', history=hist, now=v)
                T.ev('input_intact')
        r = digest(res)
        key = (n, id(fn))
        if key in results:
            T.check(results[key] == r, f'{n}: repeated call gives another answer', history=hist, now=res)
            T.ev('repeated')
        results[key] = r
        p = process_state()
        for k in p0:
            T.check(p[k] == p0[k], f'{n}: {k} changed', history=hist, before=str(p0[k]), after=str(p[k]))
        T.ev('process_intact', len(p))
        T.ev('called')
    l1 = library_state()
    for k in l0:
        T.check(l0[k] == l1[k], f'mutable default {k} changed', history=hist)
    T.ev('defaults_intact', len(l0))
    T.sig(hist, digest([w.x, w.pts, w.rho]))


def fresh(rng, T):
    """The same call on equal inputs in another object gives the same answer."""
    f = pick(rng, OPS)
    s = int(rng.integers(2**31))
    out = []
    for rep in range(2):
        g = np.random.default_rng(s)
        w = World(g)
        if rep:     # other calls in between, on another world
            o = World(np.random.default_rng(s + 1))
            for _ in range(3):
                fn, inp = pick(rng, OPS)(o, rng)
                fn(**inp)
        if rep and chance(rng, .5):     # scrambled global generators do not matter
            st, st2 = np.random.get_state(), random.getstate()
            np.random.seed(int(rng.integers(2**31)))
            random.seed(int(rng.integers(2**31)))
            fn, inp = f(w, g)
            out.append(digest(fn(**inp)))
            np.random.set_state(st)
            random.setstate(st2)
            T.ev('scrambled')
        else:
            fn, inp = f(w, g)
            out.append(digest(fn(**inp)))
    T.note(call=f.__name__, seed=s)
    T.check(out[0] == out[1], f'{f.__name__}: equal inputs give different answers')
    T.ev('fresh')
    T.state('calls', f.__name__)
    T.sig(f.__name__, s)


def setup():
    fakehmf.install()
    warnings.simplefilter('ignore')
    g = np.random.default_rng(0)
    for f in dict.fromkeys(OPS):
        for _ in range(12):
            w = World(g)
            try:        # whatever fails here fails in the cases, too
                fn, inp = f(w, g)
                fn(**inp)
            except Exception:
                pass
    library_state()


MONITORS = [
    Monitor('repeats', repeats, 1200, 30000, shards=4, setup=setup, need={'input_intact': 5000, 'object_intact': 500, 'repeated': 3000, 'process_intact': 10000, 'defaults_intact': 1000}),
    Monitor('fresh', fresh, 800, 20000, shards=2, setup=setup, need={'fresh': 500, 'scrambled': 100}),
]
