"""C19: tidal tensors and cosmic-web classification."""
import os
import numpy as np
import h5py
from pyhipp.field.cubic_box import Mesh, Field, TidalField, TidalClassifier
from pyhipp.io import h5
from ..core import Monitor
from ..gen import pick, chance, Frozen
from .c18 import kgrid, window, field, SIZES

RULE = ('random, spiky and plane-wave density fields on meshes of 1 to 9 cells per side; reference evaluates k_i k_j / k^2 on the full complex spectrum; '
        'classes are recounted per cell. Modes exactly at the Nyquist frequency have no sign, so off-diagonal comparisons use fields without them. Identity is (field, options).')


def no_nyquist(d):
    n = len(d)
    if n % 2:
        return d
    f = np.fft.fftn(d)
    for a in range(3):
        f = np.moveaxis(f, a, 0)
        f[n // 2] = 0
        f = np.moveaxis(f, 0, a)
    return np.fft.ifftn(f).real


def tidal(rng, T):
    """Spectrum, potential, tensor and eigenvalues."""
    n, L = int(pick(rng, [s for s in SIZES if s < 10] * 12 + [16, 25, 33])), float(pick(rng, [1., 100., .02]))
    kind, d = field(rng, n, L)
    clean = n % 2 == 1 or chance(rng, .6)
    if clean:
        d = no_nyquist(d)
    rho = (d - d.min() + .3) * pick(rng, [1., 1e-2, 1e5, 1e-7])
    r = float(L / n * pick(rng, [0., .5, 1., 3.]))
    cic = pick(rng, [None, 'cic', False])
    kw = {} if cic is None else {'correct_shape': cic}
    if chance(rng, .2):
        kw['n_workers'] = 2
    fr = Frozen(rho=rho)
    tf = TidalField(r_sm=r, **kw)
    fld = Field.new_by_data(rho, Mesh.new(n, L))
    T.note(n=n, L=L, r=r, kind=kind, clean=clean, kw=kw)
    res = tf.run(fld)
    delta = rho / rho.mean() - 1
    dk = np.fft.fftn(delta, norm='ortho')
    w = window('gaussian', r, n, L, cic=cic is not False)
    k0, k1, k2 = kg = kgrid(n)
    ksq = k0 ** 2 + k1 ** 2 + k2 ** 2
    green = np.where(ksq > 0, -1. / np.where(ksq > 0, ksq, 1.), 0.)
    h = n // 2 + 1
    amp = 60. * max(1., np.abs(delta).max()) * n ** 1.5
    tol = dict(rtol=0, atol=1e-10 * amp)
    back = lambda f: np.fft.ifftn(f, norm='ortho')
    T.close(res.delta_x, delta, 'overdensity', rtol=1e-10, atol=1e-11)
    T.close(res.delta_k, dk[..., :h], 'spectrum', **tol)
    T.close(res.delta_sm_k, (dk * w)[..., :h], 'smoothed spectrum', **tol)
    T.close(res.delta_sm_x, back(dk * w).real, 'smoothed overdensity', **tol)
    T.close(res.phi_k, (dk * w * green)[..., :h], 'potential', **tol)
    T.close(res.rho_x, rho, 'density kept')
    T.eq((res.l_box, res.n_grids), (fld.mesh.l_box, n), 'mesh')
    X = res.T_x
    T.check(X.shape == (n, n, n, 3, 3) and X.dtype == np.float64, 'shape of the tensor')
    T.eq(X, X.swapaxes(-1, -2), 'tensor is not symmetric')
    for i in range(3):
        for j in range(3):
            if i == j or clean:
                T.close(X[..., i, j], back(-kg[i] * kg[j] * dk * w * green).real, f'tidal tensor {i}{j}', n=n, **tol)
                T.ev('component')
    T.close(np.trace(X, axis1=-2, axis2=-1), res.delta_sm_x, 'trace is not the overdensity', rtol=0, atol=1e-9 * amp)
    lam = res.lam
    T.check(lam.shape == (n, n, n, 3), 'shape of the eigenvalues')
    T.check(np.all(np.diff(lam, axis=-1) >= 0), 'eigenvalues are not in ascending order')
    T.close(lam.sum(-1), np.trace(X, axis1=-2, axis2=-1), 'sum of the eigenvalues', rtol=0, atol=1e-10 * amp)
    T.close((lam ** 2).sum(-1), (X ** 2).sum((-1, -2)), 'squares of the eigenvalues', rtol=1e-9, atol=1e-10 * amp ** 2)
    T.close(lam, np.sort(np.linalg.eigvals(X).real, -1) if n < 4 else np.linalg.eigvalsh(X), 'eigenvalues of the tensor', rtol=0, atol=(1e-7 if n < 4 else 1e-12) * (np.abs(X).max() + 1e-300), n=n)
    T.close(lam.prod(-1), np.linalg.det(X), 'product of the eigenvalues', rtol=1e-8, atol=1e-10 * amp ** 3)
    # covariance
    if clean:
        s = tuple(int(v) for v in rng.integers(0, n, size=3))
        p = tuple(rng.permutation(3))
        o = tf.run(Field.new_by_data(np.ascontiguousarray(np.roll(rho, s, (0, 1, 2)).transpose(p)), Mesh.new(n, L)))
        T.close(o.lam, np.roll(lam, s, (0, 1, 2)).transpose(*p, 3), 'eigenvalues are not covariant', rtol=0, atol=1e-9 * amp)
        T.close(o.T_x, np.roll(X, s, (0, 1, 2)).transpose(*p, 3, 4)[..., p, :][..., p], 'tensor is not covariant', rtol=0, atol=1e-9 * amp)
        T.ev('covariant')
    T.close(tf.run(Field.new_by_data(rho * 4., Mesh.new(n, L))).lam, lam, 'depends on the normalisation of the density', rtol=0, atol=1e-9 * amp)
    T.close(tf.run(fld).lam, lam, 'second run differs', rtol=0, atol=1e-11 * amp)
    T.raises(ValueError, lambda: tf.run(Field.new_by_data(rho * 0., Mesh.new(n, L))), 'empty box')
    T.raises(ValueError, lambda: tf.run(Field.new_by_data(rho * -1., Mesh.new(n, L))), 'negative mean density')
    T.raises(AssertionError, lambda: TidalField(correct_shape='tsc'), 'unknown correction')
    if chance(rng, .3):
        path = os.path.join(os.environ['VH_CASEDIR'], f't{T.case}.h5')
        with h5.File(path, 'w') as f:
            res.dump(f.create_group('g'))
        names = {'l_box', 'n_grids', 'rho_x', 'delta_x', 'delta_k', 'delta_sm_k', 'delta_sm_x', 'phi_k', 'T_x', 'lam'}
        with h5py.File(path) as f:
            T.eq(set(f['g']), names, 'dumped items')
            for key in names:
                T.eq(f['g'][key][()], np.asarray(getattr(res, key)), 'dumped ' + key)
        with h5.File(path, 'r') as f:
            th = pick(rng, [None, 0., .1, -.2])
            c = TidalClassifier.new_from_file(f['g'], **({} if th is None else {'lam_th': th}))
            th = 0. if th is None else th
        T.eq(c.lam, lam.astype('f4'), 'eigenvalues from the file')
        T.eq((c.mesh.n_grids, c.mesh.l_box, c.lam_th), (n, fld.mesh.l_box, th), 'mesh from the file')
        T.eq(c.n_lams, (lam.astype('f4') > np.float32(th)).sum(-1), 'classes from the file') if np.min(np.abs(lam - th)) > 1e-5 else None
        if chance(rng, .5):     # a second dump into the same group: refused, or its items replaced, by the flag
            with h5.File(path, 'a') as f:
                flag = pick(rng, ['x', 'ac', 'ca'])
                f['g'].datasets['lam'] = 0 * res.lam
                if flag == 'x':
                    T.raises(ValueError, lambda: res.dump(f['g'], flag=flag), 'a second exclusive dump')
                else:
                    res.dump(f['g'], flag=flag)
                    T.eq(f['g'].datasets['lam'], np.asarray(res.lam), 'dumped again')
                T.ev('dumped again')
        os.unlink(path)
        T.ev('dump')
    fr.check(T)
    T.sig(n, L, r, rho)
    T.state('size', n)


def classify(rng, T):
    """Cells are classified by the number of eigenvalues above the threshold."""
    n, L = int(pick(rng, [1, 2, 3, 4, 5, 8])), float(pick(rng, [1., 100., .02]))
    l = L / n
    lam = np.sort(rng.normal(size=(n, n, n, 3)), -1)
    if chance(rng, .3):
        lam[..., 1] = lam[..., 0]
    th = pick(rng, [None, 0., .3, -.5, 3.])
    t = 0. if th is None else th
    lam = np.where(np.abs(lam - t) < 1e-5, t + 1e-3, lam)      # no single-precision ties by accident
    lam.sort(-1)
    if chance(rng, .3) and t in (0., -.5, 3.):
        lam[0, 0, 0] = t                                        # exactly at the threshold: not above
    inp = lam.astype('f4') if chance(rng, .3) else lam
    fr = Frozen(lam=inp)
    kw = {} if th is None else {'lam_th': th}
    c = TidalClassifier(inp, Mesh.new(n, L), **kw)
    cnt = (lam > t).sum(-1)
    T.eq(c.n_lams, cnt, 'number of eigenvalues above the threshold')
    names = {'knot': 3, 'filament': 2, 'sheet': 1, 'void': 0}
    for nm in rng.permutation(list(names)):
        sel = cnt == names[nm]
        T.eq(getattr(c, 'is_' + nm), sel, 'cells of class ' + nm)
        T.close(getattr(c, 'f_' + nm), sel.mean(), 'fraction of class ' + nm, rtol=1e-12)
        for alias in (nm, nm[0]):
            g = c.grid_points_of_web_type(alias)
            T.check(g.shape == (sel.sum(), 3), 'number of grid points')
            T.close(g, np.argwhere(sel) * l, 'grid points of class ' + nm, rtol=1e-6, atol=1e-6 * L)
        T.ev(nm, sel.sum())
    T.close(sum(getattr(c, 'f_' + nm) for nm in names), 1., 'fractions do not add up', rtol=1e-12)
    x = rng.uniform(-2 * L, 3 * L, size=(int(rng.integers(0, 12)), 3))
    u = x / l
    x = np.where(np.abs(u - np.floor(u) - .5) < 1e-6, x + .1 * l, x)       # keep off the cell faces
    if len(x):
        x[0] = rng.integers(0, n + 1, size=3) * l
    i = np.rint(x / l).astype(int) % n
    fr2 = Frozen(x=x)
    xs = x.tolist() if len(x) and chance(rng, .2) else x
    T.eq(c.web_type_at(xs), cnt[tuple(i.T)], 'class at a position')
    T.eq(c.lam_at(xs), lam.astype('f4')[tuple(i.T)], 'eigenvalues at a position')
    T.eq(c.web_type_at(x + L * rng.integers(-2, 3, size=x.shape)), cnt[tuple(i.T)], 'class is not periodic')
    T.ev('position', len(x))
    d = c.to_simple_repr()
    T.eq(list(d), ['type', 'mesh', 'lam_th', 'web_types', 'f_knot', 'f_filament', 'f_sheet', 'f_void'], 'description')
    T.eq(d['mesh']['n_grids'], n, 'mesh in the description')
    bad = np.sort(lam, -1)[..., ::-1]
    if np.any(np.diff(bad, axis=-1) < 0):
        T.raises(AssertionError, lambda: TidalClassifier(bad, Mesh.new(n, L)), 'descending eigenvalues')
    T.raises(AssertionError, lambda: TidalClassifier(lam, Mesh.new(n + 1, L)), 'another mesh')
    T.raises(AssertionError, lambda: c.web_type_at(np.zeros((2, 2))), 'ill-shaped positions')
    T.raises(KeyError, lambda: c.grid_points_of_web_type('wall'), 'unknown class')
    fr.check(T)
    fr2.check(T)
    T.check(not np.shares_memory(c.lam, inp), 'the classifier shares the caller\'s eigenvalues')
    T.sig(n, L, lam, t)


MONITORS = [
    Monitor('tidal', tidal, 300, 2500, need={'component': 400, 'covariant': 50, 'dump': 20}),
    Monitor('classify', classify, 400, 5000, need={'knot': 100, 'void': 100, 'position': 500}),
]
