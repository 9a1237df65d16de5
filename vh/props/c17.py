"""C17: mass assignment, interpolation, meshes and dumps."""
import os
import math
import numpy as np
from pyhipp.field import cubic_box as cb
from pyhipp.field.cubic_box import DensityField, Mesh, Field
from pyhipp.field.cubic_box.cosmic_web import FieldInterpolator
from pyhipp.field.cubic_box.mass_assignment import _LinearShapeFn
from pyhipp.field.cubic_box.mesh import _Mesh
from pyhipp.io import h5
from ..core import Monitor
from ..gen import pick, chance, strided, Frozen
from ..h5ref import *  # noqa  (plain h5py readers)
import h5py

RULE = ('particle sets in boxes of any size on meshes of 1 to 12 cells: inside, on nodes, faces and box edges, one ulp beside them, and far outside; '
        'reference sums the triangular cloud over all periodic images of all cells. Identity is (mesh, particles, weights).')
SIZES = [1, 2, 3, 4, 5, 6, 8, 12]


def particles(rng, n_grids, l_box, n=None):
    n = int(pick(rng, [0, 1, 2, 5, 20, 60])) if n is None else n
    l = l_box / n_grids
    x = rng.uniform(0, l_box, size=(n, 3))
    if n:
        k = rng.random((n, 3))
        on = rng.integers(0, n_grids + 1, size=(n, 3)) * l
        x = np.where(k < .2, on, x)
        x = np.where((k >= .2) & (k < .25), np.nextafter(on, np.inf), x)
        x = np.where((k >= .25) & (k < .3), np.nextafter(on, -np.inf), x)
        x = np.where((k >= .3) & (k < .35), l_box, x)
        x = np.where((k >= .35) & (k < .4), 0., x)
        x = np.where((k >= .4) & (k < .43), -1e-18 * l_box, x)
        x = np.where((k >= .43) & (k < .6), x + l_box * rng.integers(-3, 4, size=(n, 3)), x)
    return x


def cloud(x, n_grids, l_box):
    """Weight of every cell for one coordinate, all periodic images summed."""
    l = l_box / n_grids
    u = (x / l) % n_grids
    i = np.arange(n_grids)
    w = np.zeros(n_grids)
    for m in (-1, 0, 1):
        w += np.maximum(0., 1. - np.abs(u - (i + m * n_grids)))
    return w


def ref_field(x, w, n, L):
    d = np.zeros((n, n, n))
    for p, ww in zip(x, np.ones(len(x)) if w is None else w):
        a, b, c = (cloud(v, n, L) for v in p)
        d += ww * a[:, None, None] * b[None, :, None] * c[None, None, :]
    return d


def world(rng):
    n, L = int(pick(rng, SIZES)), float(pick(rng, [1., 3., 100., .01, 205.3]))
    x = particles(rng, n, L)
    w = None
    if chance(rng, .6):
        w = rng.normal(size=len(x)) if chance(rng, .2) else rng.random(len(x))
        if chance(rng, .2):
            w = rng.integers(1, 9, size=len(x))
    if chance(rng, .2):
        x = x.astype('f4')
    return n, L, x, w


def deposit(rng, T):
    """Deposits against the cloud formula, conservation, shifts and batches."""
    n, L, x, w = world(rng)
    tol = 1e-10 if x.dtype == 'f8' else 1e-4
    xs = strided(rng, x)
    if chance(rng, .15):        # as loaded from a big-endian file
        if w is None or chance(rng, .5):
            xs = x.astype(x.dtype.newbyteorder())
        else:
            w = w.astype(w.dtype.newbyteorder())
        T.ev('byte-swapped')
    fr = Frozen(x=xs, **({} if w is None else {'w': w}))
    T.note(n=n, L=L, x=x, w=w)
    f = DensityField(L, n)
    T.check(f.data.shape == (n, n, n) and not f.data.any(), 'a new field is empty')
    T.check(f.add(xs, w) is None, 'add')
    want = ref_field(x.astype(float), w, n, L)
    amp = 1. + np.abs(np.ones(len(x)) if w is None else w).sum()
    T.close(f.data, want, 'deposited field', rtol=tol, atol=tol * amp)
    tot = float(len(x) if w is None else w.sum())
    T.close(f.data.sum(), tot, 'total mass is not conserved', rtol=1e-11, atol=1e-11 * amp)
    T.ev('deposit', len(x))
    # incremental, in another order
    g = DensityField(L, n)
    p = rng.permutation(len(x))
    cut = int(rng.integers(0, len(x) + 1))
    for s in (p[:cut], p[cut:]):
        g.add(x[s], None if w is None else w[s])
    T.close(g.data, f.data, 'deposits in batches differ from one deposit', rtol=1e-11, atol=1e-12 * amp)
    if x.dtype == 'f8' and len(x):
        sh = rng.integers(-2 * n, 2 * n, size=3)
        g = DensityField(L, n)
        g.add(x + sh * (L / n), w)
        T.close(g.data, np.roll(f.data, tuple(int(s) for s in sh), (0, 1, 2)), 'shift by whole cells', rtol=1e-8, atol=1e-8 * amp)
        g = DensityField(L, n)
        g.add(x + rng.integers(-2, 3, size=x.shape) * L, w)
        T.close(g.data, f.data, 'shift by whole boxes', rtol=1e-8, atol=1e-8 * amp)
        far = 2. ** int(rng.integers(10, 24))
        g = DensityField(L, n)
        g.add(x + rng.integers(-2, 3, size=x.shape) * far * L, w)
        T.close(g.data, f.data, 'shift by very many whole boxes', rtol=1e-8, atol=(1e-8 + 1e-14 * far * n) * amp)
        g = DensityField(L, n)
        q = rng.permutation(3)
        g.add(np.ascontiguousarray(x[:, q]), w)
        T.close(g.data, f.data.transpose(*q), 'permuted axes', rtol=1e-11, atol=1e-12 * amp)
        T.ev('shift')
    for bad in ((np.zeros((3, 2)), None), (np.zeros(3), None), (np.zeros((4, 3)), np.ones(3)), (np.zeros((2, 3)), np.ones((2, 1)))):
        T.raises(AssertionError, lambda: f.add(*bad), 'ill-shaped particles')
    T.close(f.data.sum(), tot, 'a refused deposit changed the field', rtol=1e-11, atol=1e-11 * amp)
    fr.check(T)
    T.sig(n, L, x, w)
    T.state('mesh', (n, L))


def interpolate(rng, T):
    """Reading a field back uses the deposit weights."""
    n, L, x, w = world(rng)
    d = rng.normal(size=(n, n, n))
    if chance(rng, .2):
        d = np.asfortranarray(d)
    x = x.astype(float)
    fld = Field.new_by_data(d, Mesh.new(n, L))
    fr = Frozen(d=d, x=x)
    it = FieldInterpolator(fld)
    v = it.value_at(strided(rng, x))
    T.check(v.shape == (len(x),), 'shape of the values')
    for i, p in enumerate(x):
        a, b, c = (cloud(t, n, L) for t in p)
        T.close(v[i], np.einsum('i,j,k,ijk', a, b, c, d), 'value at a position', rtol=1e-8, atol=1e-8, x=p, n=n)
        T.ev('value')
    nodes = rng.integers(0, n, size=(5, 3))
    T.close(it.value_at(nodes * (L / n)), d[tuple(nodes.T)], 'value at the nodes', rtol=1e-9, atol=1e-9)
    T.close(it.value_at(x + L * rng.integers(-2, 3, size=x.shape)), v, 'not periodic', rtol=1e-7, atol=1e-7)
    # adjoint of the deposit: sum w_i f(x_i) = <deposit, field>
    m = DensityField(L, n)
    m.add(x, w)
    ww = np.ones(len(x)) if w is None else w
    T.close((ww * v).sum(), (m.data * d).sum(), 'deposit and interpolation use different weights', rtol=1e-8, atol=1e-8 * (1 + np.abs(ww).sum()))
    T.close(FieldInterpolator(Field.new_by_data(np.full((n, n, n), 3.), Mesh.new(n, L))).value_at(x), np.full(len(x), 3.), 'constant field', rtol=1e-12)
    T.raises(AssertionError, lambda: it.value_at(np.zeros((2, 4))), 'ill-shaped positions')
    fr.check(T)
    T.sig(n, L, d, x)


def meshes(rng, T):
    """Mesh geometry, fields and shape functions."""
    n, L = int(pick(rng, SIZES + [64, 1000])), float(10. ** rng.uniform(-3, 3))
    m = Mesh.new(n, L) if chance(rng, .5) else Mesh.new(n_grids=n, l_box=L)
    l = L / n
    T.eq((m.n_grids, m.total_n_grids), (n, n ** 3), 'numbers of cells')
    T.close([m.l_box, m.l_grid, m.volume, m.cell_volume], [L, l, L ** 3, l ** 3], 'mesh sizes', rtol=1e-12)
    T.eq(m.to_simple_repr(), {'type': 'Mesh', 'n_grids': n, 'l_box': m.l_box, 'l_grid': m.l_grid}, 'description')
    T.eq((Mesh.new().n_grids, Mesh.new().l_box), (32, 1.0), 'default mesh')
    im = _Mesh(n, L)
    for x in rng.uniform(-2 * L, 3 * L, size=6):
        i = im.x_to_xi(x)
        T.check(0 <= i < n, 'cell index')
        d = (x - i * l + L / 2) % L - L / 2
        T.check(abs(d) <= l / 2 * (1 + 1e-9), 'not the nearest cell', x=x, i=i, n=n)
    X = rng.uniform(-2 * L, 3 * L, size=(4, 3))
    T.eq(im.x_to_xi_nd(X), np.array([[im.x_to_xi(v) for v in r] for r in X]), 'array of cells')
    T.eq(im.x_to_xi_nd(np.arange(n + 1 if n < 100 else 3) * l)[:n], np.arange(n if n < 100 else 3), 'cells of the nodes')
    e = 2. ** rng.integers(-4, 5)           # exact lengths: a shift by whole cells shifts the index, between nodes too
    im2 = _Mesh(n, n * e)
    u = float(pick(rng, [.5, .25, .75, 0., .5]))
    s = rng.integers(-2 * n, 3 * n, size=9)
    T.eq(np.asarray(im2.x_to_xi_nd((s + u) * e)), (im2.x_to_xi(u * e) + s) % n, 'a shift by whole cells does not shift the cell', u=u, n=n)
    T.eq([im2.x_to_xi((v + u) * e) for v in s], (im2.x_to_xi(u * e) + s) % n, 'a shift by whole cells does not shift the cell', u=u, n=n)
    # fields
    k = n if n <= 12 else 3
    mk = Mesh.new(k, L)
    z = Field.new_zeros(mk)
    T.check(z.shape == (k, k, k) and z.n_dims == 3 and not z.data.any(), 'zero field')
    d = rng.normal(size=(k, k, k))
    f = Field.new_by_data(d, mk)
    T.check(np.shares_memory(f.data, d), 'field refers to its data')
    c = f.copied()
    T.check(not np.shares_memory(c.data, d), 'copied field shares memory')
    c.data[...] = 0
    T.check(f.data.any() and f.mesh.n_grids == k and f.mesh.l_box == m.l_box and c.mesh.l_box == m.l_box, 'copied field')
    T.raises(AssertionError, lambda: Field.new_by_data(np.zeros((k, k, k + 1)), mk), 'non-cubic data')
    T.raises(AssertionError, lambda: Field.new_by_data(np.zeros((k + 1,) * 3), mk), 'data of another mesh')
    # shape function
    S = _LinearShapeFn(im)
    x = float(rng.uniform(-2 * l, 2 * l))
    T.close([S.shape_at_x(x), S.shape_at_xi(x / l)], [max(0., 1 - abs(x / l))] * 2, 'shape function', rtol=1e-9, atol=1e-12)
    i = float(rng.uniform(-n, n))
    ref = np.sinc(i / n) ** 2
    T.close([S.shape_at_ki(i), S.shape_at_k(i * 2 * np.pi / L)], [ref] * 2, 'shape function in Fourier space', rtol=1e-7, atol=1e-12)
    v = rng.integers(-n // 2, n // 2 + 1, size=3).astype(float)
    T.close(S.shape_at_ki_nd(v), np.prod(np.sinc(v / n) ** 2), 'three-dimensional shape', rtol=1e-9, atol=1e-14)
    T.eq(float(S.shape_at_ki(0.)), 1., 'shape of the mean')
    il, ir, wl, wr = S.weights_at(x)
    T.check(0 <= il < n and ir == (il + 1) % n, 'adjacent cells')
    T.close(wl + wr, 1., 'weights', rtol=1e-12)
    T.close(np.bincount([il, ir], [wl, wr], n) if n <= 64 else 0., cloud(x, n, L) if n <= 64 else 0., 'weights of a position', atol=1e-9)
    T.ev('mesh')
    T.sig(n, L)


def dumps(rng, T):
    """Dumping, joining and loading."""
    base = os.environ['VH_CASEDIR']
    n, L, x, w = world(rng)
    parts = int(rng.integers(1, 8))
    own = rng.integers(0, parts, size=len(x))
    whole = DensityField(L, n)
    whole.add(x, w)
    p1 = os.path.join(base, f'a{T.case}.h5')
    with h5.File(p1, 'w') as f:
        for k in range(parts):
            d = DensityField(L, n)
            d.add(x[own == k], None if w is None else w[own == k])
            g = f.create_group(f'slab{k}')
            d.dump(g, **({'flag': 'ac'} if chance(rng, .3) else {}))
            T.ev('dump')
        whole.dump(f.create_group('whole'))
    with h5py.File(p1) as f:
        T.eq(f['whole/data'][()], whole.data, 'dumped data')
        T.eq((float(f['whole/l_box'][()]), int(f['whole/n_grids'][()])), (L, n), 'dumped mesh')
        before = {k: f[f'slab{k}/data'][()] for k in range(parts)}
    order = rng.permutation(parts)
    with h5.File(p1, 'a') as f:
        gs = [f[f'slab{k}'] for k in order]
        DensityField.join_dumps(pick(rng, [gs, iter(gs)]), f.create_group('joined'))
    with h5.File(p1, 'r') as f:
        j = DensityField.load(f['joined'])
        wl = DensityField.load(f['whole'])
    amp = 1 + np.abs(np.ones(len(x)) if w is None else w).sum()
    T.eq(wl.data, whole.data, 'loaded field')
    T.close(j.data, whole.data, 'joined slabs differ from the field of all particles', rtol=1e-11, atol=1e-12 * amp)
    for f_ in (j, wl):
        T.eq((f_.mesh.n_grids, f_.mesh.l_box), (n, L), 'mesh of the loaded field')
    with h5py.File(p1) as f:
        T.eq((float(f['joined/l_box'][()]), int(f['joined/n_grids'][()])), (L, n), 'mesh of the joined field')
        for k in range(parts):
            T.eq(f[f'slab{k}/data'][()], before[k], 'a slab changed while joining')
    with h5.File(p1, 'a') as f:     # once more into the same groups: refused, or replaced, by the flag
        flag = pick(rng, ['x', 'ac', 'ca'])
        g = f['joined']
        g.datasets['data'] = 0 * whole.data
        for fn in (lambda: whole.dump(g, flag=flag), lambda: DensityField.join_dumps([f['whole']], g, flag=flag)):
            if flag == 'x':
                T.raises(ValueError, fn, 'a second exclusive dump')
            else:
                fn()
                T.eq(g.datasets['data'], whole.data, 'dumped again')
        T.ev('dumped again')
    # a field built from stored overdensities
    with h5.File(p1, 'a') as f:
        key = pick(rng, ['delta_x', 'delta_sm_x'])
        d = rng.normal(size=(n, n, n))
        f.create_group('dens').dump({key: d, 'l_box': L, 'n_grids': n})
    with h5.File(p1, 'r') as f:
        it = FieldInterpolator.new_density_field_from_file(f['dens'], **({} if key == 'delta_x' else {'key': key}))
    i = rng.integers(0, n, size=(4, 3))
    T.close(it.value_at(i * (L / n)), 1. + d[tuple(i.T)], 'density from stored overdensity', rtol=1e-9, atol=1e-9)
    os.unlink(p1)
    T.ev('joined')
    T.sig(n, L, x, w, parts)


MONITORS = [
    Monitor('deposit', deposit, 600, 8000, need={'deposit': 2000, 'shift': 150, 'byte-swapped': 15}),
    Monitor('interpolate', interpolate, 400, 6000, need={'value': 1000}),
    Monitor('meshes', meshes, 400, 4000, need={'mesh': 150}),
    Monitor('dumps', dumps, 80, 2000, need={'joined': 60, 'dump': 100}),
]
