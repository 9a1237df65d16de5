"""C18: Fourier smoothing."""
import os
import math
import numpy as np
import h5py
from pyhipp.field.cubic_box import Mesh, Field, FFTSmoothing, FourierSpaceSmoothing, _Gaussian, _Tophat
from pyhipp.field.cubic_box.fft import NdRealFFT, default_nd_real_fft
from pyhipp.io import h5
from ..core import Monitor
from ..gen import pick, chance, strided, Frozen

RULE = ('random, spiky, constant and plane-wave fields on meshes of 1 to 12 cells per side (even and odd) and boxes of any size; '
        'reference multiplies the full complex spectrum by the window formula. Identity is (field, filter).')
SIZES = [1, 2, 3, 4, 5, 6, 7, 8, 9, 12]


def kgrid(n):
    k = np.fft.fftfreq(n) * n
    return np.meshgrid(k, k, k, indexing='ij')


def window(method, r, n, L, cic=False):
    k0, k1, k2 = kgrid(n)
    kr = np.sqrt(k0 ** 2 + k1 ** 2 + k2 ** 2) * 2 * np.pi / L * r
    if method == 'gaussian':
        w = np.exp(-.5 * kr ** 2)
    else:
        with np.errstate(all='ignore'):
            w = np.where(kr < 1e-3, 1 - kr ** 2 / 10, 3 * (np.sin(kr) - kr * np.cos(kr)) / np.where(kr == 0, 1., kr) ** 3)
    if cic:
        w = w / (np.sinc(k0 / n) * np.sinc(k1 / n) * np.sinc(k2 / n)) ** 2
    return w


def apply(d, w):
    return np.fft.ifftn(np.fft.fftn(d) * w)


def field(rng, n, L):
    k = pick(rng, ['noise', 'noise', 'spike', 'const', 'wave', 'nyquist'])
    d = rng.normal(size=(n, n, n))
    if k == 'spike':
        d = np.zeros((n, n, n))
        d[tuple(rng.integers(0, n, size=3))] = 10.
    elif k == 'const':
        d = np.full((n, n, n), float(rng.normal()))
    elif k == 'wave':
        i = np.stack(np.meshgrid(*[np.arange(n)] * 3, indexing='ij'), -1)
        d = np.cos(2 * np.pi * (i @ rng.integers(-n, n + 1, size=3)) / n + rng.random())
    elif k == 'nyquist':
        i = np.stack(np.meshgrid(*[np.arange(n)] * 3, indexing='ij'), -1)
        d = (-1.) ** (i @ rng.integers(0, 2, size=3)) + .1 * d
    if chance(rng, .2):
        d = np.asfortranarray(d)
    return k, d


def world(rng):
    n, L = int(pick(rng, SIZES)), float(pick(rng, [1., 100., .02, 7.]))
    k, d = field(rng, n, L)
    r = float(L / n * pick(rng, [0., 1e-9, .3, 1., 2., 10.]))
    return n, L, k, d, r, pick(rng, ['gaussian', 'tophat'])


def plain(rng, T):
    """Smoothing without correction."""
    n, L, k, d, r, method = world(rng)
    d = d * pick(rng, [1., 1e3])
    amp = max(1., np.abs(d).max())
    fr = Frozen(d=d)
    fld = Field.new_by_data(d, Mesh.new(n, L))
    kw = {'n_workers': pick(rng, [1, 2])} if chance(rng, .3) else {}
    if method != 'gaussian' or chance(rng, .5):
        kw['method'] = method
    sm = FFTSmoothing(r_sm=r, **kw)
    T.note(n=n, L=L, r=r, method=method, kind=k)
    out = sm.run(fld)
    want = apply(d, window(method, r, n, L))
    tol = dict(rtol=0, atol=2e-7 * amp if method == 'tophat' and r < 1e-2 * L / n else 1e-9 * amp)
    T.check(out.data.dtype == np.float64 and out.data.shape == d.shape, 'smoothed field is not a real field of the mesh')
    T.close(out.data, want.real, 'smoothed field', n=n, **tol)
    T.eq((out.mesh.n_grids, out.mesh.l_box), (n, fld.mesh.l_box), 'mesh of the smoothed field')
    T.close(out.data.mean(), d.mean(), 'mean', rtol=0, atol=1e-11 * amp)
    T.check(not np.shares_memory(out.data, d), 'smoothed field is the input')
    # linear, translation and axes
    _, e = field(rng, n, L)
    a = float(rng.normal())
    o2 = sm.run(Field.new_by_data(d + a * e, Mesh.new(n, L))).data
    oe = sm.run(Field.new_by_data(e, Mesh.new(n, L))).data
    T.close(o2, out.data + a * oe, 'not linear', rtol=0, atol=1e-10 * (amp + abs(a) * np.abs(e).max()))
    s = tuple(int(v) for v in rng.integers(0, n, size=3))
    o3 = sm.run(Field.new_by_data(np.roll(d, s, (0, 1, 2)), Mesh.new(n, L))).data
    T.close(o3, np.roll(out.data, s, (0, 1, 2)), 'does not commute with translations', rtol=0, atol=1e-10 * amp)
    p = tuple(rng.permutation(3))
    o4 = sm.run(Field.new_by_data(np.ascontiguousarray(d.transpose(p)), Mesh.new(n, L))).data
    T.close(o4, out.data.transpose(p), 'not isotropic', rtol=0, atol=1e-10 * amp)
    o5 = sm.run(Field.new_by_data(np.ascontiguousarray(d[::-1]), Mesh.new(n, L))).data
    T.close(o5, out.data[::-1], 'not symmetric under reflection', rtol=0, atol=1e-10 * amp)
    T.close(sm.run(fld).data, out.data, 'second run differs', rtol=0, atol=1e-13 * amp)
    T.raises(ValueError, lambda: FFTSmoothing(r_sm=r, method='box').run(fld), 'unknown filter')
    T.eq(FFTSmoothing().run(fld).data, FFTSmoothing(r_sm=1.0, method='gaussian').run(fld).data, 'default filter')
    # scale free: lengths in another unit
    o6 = FFTSmoothing(r_sm=r * 8., **kw).run(Field.new_by_data(d, Mesh.new(n, L * 8.))).data
    T.close(o6, out.data, 'depends on the unit of length', rtol=0, atol=1e-10 * amp)
    fr.check(T)
    T.ev(method)
    T.ev('even' if n % 2 == 0 else 'odd')
    T.sig(n, L, r, method, d)


def density(rng, T):
    """Smoothing of a deposited density with shape correction."""
    n, L, k, d, r, method = world(rng)
    rho = np.exp(.5 * d) if k != 'wave' else 2. + d
    rho = rho * pick(rng, [1., 1e-3, 1e4])
    fr = Frozen(rho=rho)
    sm = FourierSpaceSmoothing(r_sm=r, method=method, **({'n_workers': 2} if chance(rng, .2) else {}))
    fld = Field.new_by_data(rho, Mesh.new(n, L))
    res = sm.run(fld)
    delta = rho / rho.mean() - 1
    amp = max(1., np.abs(delta).max()) * 60.
    T.close(res.delta_x, delta, 'overdensity', rtol=1e-10, atol=1e-11)
    dk = np.fft.fftn(delta, norm='ortho')
    w = window(method, r, n, L, cic=True)
    h = n // 2 + 1
    small = method == 'tophat' and r < 1e-2 * L / n
    tol = dict(rtol=0, atol=(1e-6 if small else 1e-9) * amp * n ** 1.5)
    T.check(res.delta_k.shape == (n, n, h) and res.delta_sm_k.shape == (n, n, h), 'shape of the half spectrum')
    T.close(res.delta_k, dk[..., :h], 'spectrum', **tol)
    T.close(res.delta_sm_k, (dk * w)[..., :h], 'smoothed spectrum', **tol)
    T.close(res.delta_sm_x, np.fft.ifftn(dk * w, norm='ortho').real, 'smoothed overdensity', **tol)
    T.check(res.delta_sm_x.dtype == np.float64 and res.delta_sm_x.shape == (n, n, n), 'smoothed overdensity is a real field')
    T.close(res.rho_x, rho, 'density kept')
    T.eq((res.l_box, res.n_grids), (fld.mesh.l_box, n), 'mesh')
    T.close(res.delta_sm_x.mean(), 0., 'mean of the overdensity', atol=1e-9 * amp)
    o2 = sm.run(Field.new_by_data(rho * 4., Mesh.new(n, L)))
    T.close(o2.delta_sm_x, res.delta_sm_x, 'depends on the normalisation of the density', rtol=0, atol=1e-9 * amp)
    s = tuple(int(v) for v in rng.integers(0, n, size=3))
    p = tuple(rng.permutation(3))
    o3 = sm.run(Field.new_by_data(np.ascontiguousarray(np.roll(rho, s, (0, 1, 2)).transpose(p)), Mesh.new(n, L)))
    T.close(o3.delta_sm_x, np.roll(res.delta_sm_x, s, (0, 1, 2)).transpose(p), 'not covariant under translation and axis permutation', rtol=0, atol=1e-9 * amp)
    T.raises(ValueError, lambda: sm.run(Field.new_by_data(rho * 0., Mesh.new(n, L))), 'empty box')
    T.raises(ValueError, lambda: FourierSpaceSmoothing(method='x').run(fld), 'unknown filter')
    if chance(rng, .3):
        path = os.path.join(os.environ['VH_CASEDIR'], f's{T.case}.h5')
        with h5.File(path, 'w') as f:
            res.dump(f.create_group('g'))
        with h5py.File(path) as f:
            T.eq(set(f['g']), {'l_box', 'n_grids', 'rho_x', 'delta_x', 'delta_k', 'delta_sm_k', 'delta_sm_x'}, 'dumped items')
            for key in f['g']:
                T.eq(f['g'][key][()], np.asarray(getattr(res, key)), 'dumped ' + key)
        if chance(rng, .5):     # a second dump into the same group: refused, or its items replaced, by the flag
            with h5.File(path, 'a') as f:
                flag = pick(rng, ['x', 'ac', 'ca'])
                f['g'].datasets['delta_sm_x'] = 0 * res.delta_sm_x
                if flag == 'x':
                    T.raises(ValueError, lambda: res.dump(f['g'], flag=flag), 'a second exclusive dump')
                else:
                    res.dump(f['g'], flag=flag)
                    T.eq(f['g'].datasets['delta_sm_x'], np.asarray(res.delta_sm_x), 'dumped again')
                T.ev('dumped again')
        os.unlink(path)
        T.ev('dump')
    fr.check(T)
    T.ev(method)
    T.sig(n, L, r, method, rho)


def windows(rng, T):
    """Window functions and volumes."""
    n, L = int(pick(rng, SIZES)), float(10. ** rng.uniform(-2, 3))
    r = float(L * 10. ** rng.uniform(-3, 1))
    m = Mesh.new(n, L)._impl
    g, t = _Gaussian(r, m), _Tophat(r, m)
    for _ in range(6):
        k = rng.integers(-n, n + 1, size=3).astype(float)
        kr = math.sqrt((k ** 2).sum()) * 2 * math.pi / L * r
        T.close(g.window_at_ki(k), math.exp(-kr * kr / 2), 'Gaussian window', rtol=1e-8, atol=1e-300)
        want = 1. if kr < 1e-3 else 3 * (math.sin(kr) - kr * math.cos(kr)) / kr ** 3
        T.close(t.window_at_ki(k), want, 'top-hat window', rtol=1e-9, atol=1e-6 if kr < 1e-2 else 1e-9)
        T.check(abs(t.window_at_ki(k)) <= 1 + 1e-6 and 0 <= g.window_at_ki(k) <= 1, 'window exceeds one')
    T.eq([float(g.window_at_ki(np.zeros(3))), float(t.window_at_ki(np.zeros(3)))], [1., 1.], 'window of the mean')
    T.close([g.volume(), t.volume()], [(2 * math.pi) ** 1.5 * r ** 3, 4 / 3 * math.pi * r ** 3], 'volume of the filter', rtol=1e-10)
    # real transform
    nd = int(rng.integers(1, 4))
    shp = tuple(int(v) for v in rng.integers(1, 7, size=nd))
    x = strided(rng, rng.normal(size=shp))
    fr = Frozen(x=x)
    norm = pick(rng, [None, 'ortho', 'forward', 'backward'])
    F = NdRealFFT(shape=shp, norm=norm, n_workers=pick(rng, [None, 2]))
    y = F.forward(x)
    full = np.fft.fftn(x, norm=norm)
    T.close(y, full[..., :shp[-1] // 2 + 1], 'real transform', rtol=1e-9, atol=1e-9)
    y0 = y.copy()
    T.close(F.backward(y), x, 'inverse transform', rtol=1e-9, atol=1e-10)
    T.eq(y, y0, 'the inverse transform overwrote its input')
    Fo = NdRealFFT(shape=shp, norm=norm, overwrite_input=True, n_workers=pick(rng, [None, 1, -1]))
    T.close(Fo.forward(x.copy()), y, 'transform allowed to overwrite its input', rtol=1e-9, atol=1e-9)
    T.close(Fo.backward(y.copy()), x, 'inverse transform allowed to overwrite its input', rtol=1e-9, atol=1e-10)
    T.close(default_nd_real_fft.forward(x), np.fft.fftn(x)[..., :shp[-1] // 2 + 1], 'default transform', rtol=1e-9, atol=1e-9)
    ax = (int(rng.integers(nd)),)
    Fa = NdRealFFT(axes=ax, norm=norm)
    T.close(Fa.forward(x), np.fft.rfft(x, axis=ax[0], norm=norm), 'transform along one axis', rtol=1e-9, atol=1e-9)
    Fp = NdRealFFT(shape=(shp[-1] + 3,), axes=(nd - 1,), norm=norm)
    T.close(Fp.backward(Fp.forward(x))[..., :shp[-1]], x, 'padded transform', rtol=1e-9, atol=1e-9)
    fr.check(T)
    T.ev('window')
    T.sig(n, L, r, x)


MONITORS = [
    Monitor('plain', plain, 300, 3000, need={'gaussian': 40, 'tophat': 40, 'even': 40, 'odd': 40}),
    Monitor('density', density, 240, 3000, need={'gaussian': 30, 'tophat': 30, 'dump': 15}),
    Monitor('windows', windows, 300, 3000, need={'window': 100}),
]
