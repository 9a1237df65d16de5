"""C08: periodic box and polar frames."""
import numpy as np
from pyhipp.core.dataproc import frame
from ..core import Monitor, same
from ..gen import pick, chance, Frozen, strided

RULE = ('positions of any leading shape (dyadic values exactly on faces and half-box offsets, plus generic floats) and box sizes; wrapping is compared with '
        'an element-by-element scalar model and with modular arithmetic; polar helpers with an orthonormal-frame model. Identity is (function, shape, box, mask use).')
BOX = frame.PeriodicBox
POLAR = frame.Polar


def wrap1(v, L):
    v = v + L if v < 0 else v
    return v - L if v >= L else v


def positions(rng, shape, L, lo, hi):
    """Dyadic multiples of the box (exact arithmetic) or generic floats."""
    if chance(rng, .5):
        return rng.integers(int(lo * 16), int(hi * 16), size=shape) * (L / 16), True
    return rng.uniform(lo * L, hi * L, size=shape), False


def box(rng, L):
    """The box size as some kind of number."""
    return pick(rng, [float, float, np.float64, np.float32 if float(np.float32(L)) == L else float, int if L == int(L) else float, np.asarray])(L)


def window(rng, x):
    """The same positions as a view of a larger array, and that array."""
    big = np.full((2,) + x.shape[:-1] + (x.shape[-1] + 2,), 7.25, x.dtype)
    v = big[1, ..., 1:-1] if chance(rng, .5) else big[0, ..., -2:0:-1]
    v[...] = x
    return v, big


def shp(rng):
    return tuple(int(s) for s in rng.integers(0 if chance(rng, .1) else 1, 5, size=int(rng.integers(1, 4))))


def wrap(rng, T):
    """Wrapping into the box and to the nearest image."""
    L = float(pick(rng, [1., 2., 64., 100., .25, 1024., 75.]))
    s = shp(rng)
    x, dyadic = positions(rng, s, L, -1, 2)
    if dyadic:
        L = float(2. ** round(np.log2(L)))
        x = rng.integers(-16, 32, size=s) * (L / 16)
    x = x.astype(pick(rng, ['f8', 'f8', 'f4']))
    if x.size and chance(rng, .3):
        # values next to the faces, and negatives that round to the box size
        dt, l = x.dtype.type, x.dtype.type(L)
        edge = [-np.finfo(dt).tiny, dt(-1e-20), dt(-1e-9) * l, np.nextafter(dt(0), dt(-1)), np.nextafter(l, dt(0)), np.nextafter(l, 2 * l), np.nextafter(-l, dt(0)), np.nextafter(2 * l, dt(0)), dt(-0.)]
        x.flat[int(rng.integers(x.size))] = pick(rng, edge)
        dyadic = False
        T.ev('edges')
    where = rng.random(s) < .6 if chance(rng, .4) else None
    copy = chance(rng, .6)
    x, big = window(rng, x) if chance(rng, .3) else (strided(rng, x), None)
    fr = Frozen(x=x) if copy else None
    x0, Lf, L = x.copy(), L, box(rng, L)
    kw = {} if where is None else {'where': where}
    if not (copy and chance(rng, .5)):
        kw['copy'] = copy
    T.note(L=L, x=x0, where=where, copy=copy)
    got = BOX.shift_in(x, L, **kw)
    sel = np.ones(s, bool) if where is None else where
    T.check(got.shape == s and got.dtype == x0.dtype, 'shape or dtype changed')
    if copy:
        fr.check(T)
        T.check(not np.shares_memory(got, x), 'a copy was requested')
    else:
        T.check(got is x or np.shares_memory(got, x), 'in-place wrapping must return the same array')
        T.check(same(got, x), 'in-place wrapping must update the array')
    if big is not None:
        T.eq(np.sum(big == 7.25) - np.sum(x == 7.25), big.size - x.size, 'positions outside the given view changed')
        T.ev('view')
    L = Lf
    if chance(rng, .2) and L == int(L):         # whole-number positions
        xi = rng.integers(-int(L), 2 * int(L), size=s)
        T.eq(BOX.shift_in(xi, int(L)), xi % int(L), 'wrapped whole-number positions')
    for i in np.ndindex(*s):
        v = x0[i]
        w = wrap1(v, x0.dtype.type(L)) if sel[i] else v
        T.check(abs(float(got[i]) - float(w)) <= 2e-7 * L if x0.dtype == 'f4' else abs(got[i] - w) <= 1e-14 * L,
                'wrapped position differs', i=i, v=v, got=got[i], want=w)
        if sel[i]:
            T.check(0 <= got[i] < L, 'wrapped position outside [0, L)', v=v, got=got[i])
            T.ev('face' if v in (0, L, -L) else 'wrapped')
    T.check(bool(BOX.test_bound(got, L)) == bool(((got >= 0) & (got < L)).all()), 'test_bound')
    T.check(bool(BOX.test_bound(x0, L)) == bool(((x0 >= 0) & (x0 < L)).all()), 'test_bound')
    T.check(BOX.test_bound(got, L, where=sel) == True, 'test_bound with mask')
    m2 = rng.random(s) < .5
    T.check(bool(BOX.test_bound(x0, L, where=m2)) == all(0 <= v < L for v in x0[m2]), 'test_bound with mask')
    # idempotence and periodicity
    once = BOX.shift_in(x0, L)
    T.eq(BOX.shift_in(once, L), once, 'wrapping twice differs from wrapping once')
    if dyadic:
        inb = rng.integers(0, 16, size=s) * (L / 16)
        for k in (-1, 0, 1):
            T.eq(BOX.shift_in(inb + k * L, L), inb, 'shift by a whole box changes the wrapped position', k=k)
    T.sig('in', s, L, where is None, copy)


def nearest(rng, T):
    """Nearest-image shifts."""
    dy = chance(rng, .6)
    L = float(pick(rng, [1., 2., 64., .25]) if dy else rng.uniform(.5, 200))
    s = shp(rng)
    d = 3 if chance(rng, .5) else None
    if d:
        s = s + (3,)
    ref_shape = pick(rng, [s, s[-1:], ()])
    if dy:
        ref = rng.integers(0, 16, size=ref_shape) * (L / 16)
        x = rng.integers(0, 16, size=s) * (L / 16)
    else:
        ref, x = rng.uniform(0, L, size=ref_shape), rng.uniform(0, L, size=s)
    x = np.asarray(x, float)
    where = rng.random(s) < .6 if chance(rng, .3) else None
    copy = chance(rng, .6)
    x, big = window(rng, x) if chance(rng, .3) else (strided(rng, x), None)
    x0, ref0, Lf, L = x.copy(), np.array(ref), L, box(rng, L)
    ref = ref.tolist() if isinstance(ref, np.ndarray) and ref.ndim and ref.size and chance(rng, .2) else ref
    T.note(L=L, x=x0, ref=ref0, copy=copy)
    kw = {'copy': copy} if not copy or chance(rng, .5) else {}
    got = BOX.shift_to(x, ref, L, **({} if where is None else {'where': where}), **kw)
    T.check(np.array_equal(np.asarray(ref), ref0), 'reference position modified')
    if copy:
        T.check(same(x, x0) and not np.shares_memory(got, x), 'input modified although a copy was requested')
    else:
        T.check(same(got, x), 'in-place shift must update the array')
    if big is not None:
        T.eq(np.sum(big == 7.25) - np.sum(x == 7.25), big.size - x.size, 'positions outside the given view changed')
    L = Lf
    R = np.broadcast_to(ref0, s)
    sel = np.ones(s, bool) if where is None else where
    for i in np.ndindex(*s):
        if not sel[i]:
            T.check(got[i] == x0[i], 'unselected element moved', i=i)
            continue
        k = (got[i] - x0[i]) / L
        T.check(abs(k - round(k)) < 1e-9, 'shift is not a whole number of boxes', i=i, k=k)
        dd = got[i] - R[i]
        T.check(-L / 2 - 1e-9 * L <= dd <= L / 2 + 1e-9 * L, 'separation exceeds half a box', i=i, sep=dd)
        if dy:
            T.check(-L / 2 <= dd < L / 2, 'separation must lie in [-L/2, L/2)', i=i, sep=dd)
            T.ev('half_box' if abs(dd) == L / 2 else 'nearest')
        best = min(abs(x0[i] + m * L - R[i]) for m in (-1, 0, 1))
        T.check(abs(abs(dd) - best) <= 1e-9 * L, 'a closer image exists', i=i)
        T.ev('image')
    if dy and where is None:
        # whole-box shifts of the point do not change the outcome
        T.eq(BOX.shift_to(BOX.shift_in(got, L), ref0, L), got, 'nearest image depends on the starting image')
    T.sig('to', s, ref_shape, L, where is None, copy)


def polar(rng, T):
    """Unit vectors and the radial-tangential frame."""
    s = shp(rng) if chance(rng, .8) else ()
    th = rng.uniform(0, np.pi, size=s)
    ph = rng.uniform(-np.pi, 2 * np.pi, size=s)
    fr = Frozen(th=np.asarray(th), ph=np.asarray(ph))
    v = POLAR.unit_vec_to_cart(th, ph) if chance(rng, .5) else POLAR.unit_vec_to_cart(th, ph, stack=True)
    parts = POLAR.unit_vec_to_cart(th, ph, stack=False)
    T.check(isinstance(parts, tuple) and len(parts) == 3 and v.shape == s + (3,), 'shape of unit vectors')
    for j in range(3):
        T.close(v[..., j], np.asarray(parts[j]), 'stacked and unstacked vectors differ', atol=1e-15)
    T.close(np.linalg.norm(v, axis=-1), np.ones(s), 'not a unit vector', atol=1e-12)
    T.close(np.arccos(np.clip(v[..., 2], -1, 1)), th, 'polar angle not recovered', atol=1e-7)
    dphi = np.arctan2(v[..., 1], v[..., 0]) - ph
    T.check(np.all((np.abs(np.sin(dphi / 2)) < 1e-7) | (np.sin(th) < 1e-3)), 'azimuth not recovered')
    v2 = POLAR.unit_vec_to_cart_2d(ph)
    p2 = POLAR.unit_vec_to_cart_2d(ph, stack=False)
    T.check(v2.shape == s + (2,) and isinstance(p2, tuple) and len(p2) == 2, 'shape of 2-D unit vectors')
    T.close(v2, np.stack([np.cos(ph), np.sin(ph)], -1), '2-D unit vector', atol=1e-12)
    T.close(np.stack(p2, -1), v2, '2-D stacked and unstacked differ', atol=1e-15)
    fr.check(T)
    # local frame
    n = int(rng.integers(1, 6))
    x = rng.normal(size=(n, 3)) * 10. ** rng.integers(-3, 4)
    x[:, 0] += .1 * np.abs(x).max()
    if chance(rng, .2):
        x = rng.integers(1, 20, size=(n, 3))
    w = rng.normal(size=(n, 3))
    fr = Frozen(x=x, w=w)
    arg = pick(rng, [lambda a: a, lambda a: a.tolist()])
    out = POLAR.rt_to_cart(arg(x), arg(w))
    fr.check(T)
    T.check(out.shape == (n, 3), 'shape of rotated vectors')
    for i in range(n):
        ez = x[i] / np.sqrt((x[i].astype(float) ** 2).sum())
        ex = np.array([-ez[1], ez[0], 0.])
        ex /= np.sqrt((ex ** 2).sum())
        ey = np.array([ez[1] * ex[2] - ez[2] * ex[1], ez[2] * ex[0] - ez[0] * ex[2], ez[0] * ex[1] - ez[1] * ex[0]])
        want = w[i, 0] * ex + w[i, 1] * ey + w[i, 2] * ez
        T.close(out[i], want, 'vector differs in the local frame', rtol=1e-6, atol=1e-6)
        T.ev('frame')
    T.close(np.linalg.norm(out, axis=1), np.linalg.norm(w, axis=1), 'rotation changed a length', rtol=1e-6)
    T.close(np.sum(out * x, axis=1), w[:, 2] * np.linalg.norm(x, axis=1), 'radial component not preserved', rtol=1e-6, atol=1e-6 * np.abs(x).max())
    # on the polar axis itself the tangential axes are undefined, the radial one is not
    x = np.zeros((n, 3))
    x[:, 2] = rng.normal(size=n) * 10. ** rng.integers(-3, 4)
    w = np.zeros((n, 3))
    w[:, 2] = rng.normal(size=n)
    got = np.asarray(POLAR.rt_to_cart(x, w))
    want = np.zeros((n, 3))
    want[:, 2] = w[:, 2] * np.sign(x[:, 2])
    T.close(got, want, 'radial vector on the polar axis', rtol=1e-9, atol=1e-12)
    T.ev('axis', n)
    T.sig('polar', s, n)


MONITORS = [
    Monitor('wrap', wrap, 1200, 10000, need={'face': 30, 'wrapped': 500}),
    Monitor('nearest', nearest, 1200, 10000, need={'image': 500, 'half_box': 50}),
    Monitor('polar', polar, 600, 5000, need={'frame': 100}),
]
