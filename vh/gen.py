"""Workload generators shared by the property modules (all driven by rng)."""
import numpy as np

DTYPES = ['f8', 'f4', 'f2', 'i8', 'i4', 'i2', 'i1', 'u8', 'u4', 'u2', 'u1', '?', 'c16', 'c8']
H5_DTYPES = [d for d in DTYPES] + ['>f8', '>i4', '<u2']
NAMES = ['a', 'b', 'c', 'pos', 'vel', 'x0', 'Mass', 'id_1', 'very_long_column_name', 'k-1', 'n.2', 'é']


def pick(rng, seq):
    return seq[int(rng.integers(len(seq)))]


def chance(rng, p):
    return bool(rng.random() < p)


def array(rng, shape=None, dtype=None, hostile=True):
    """Any array: scalar-shaped to 3-D, empty axes, extreme values."""
    if shape is None:
        nd = int(rng.integers(0, 4))
        shape = tuple(int(s) for s in rng.integers(0 if chance(rng, .1) else 1, 6, size=nd))
    dt = np.dtype(dtype or pick(rng, DTYPES))
    n = int(np.prod(shape))
    if dt.kind == 'b':
        v = rng.random(n) < .5
    elif dt.kind in 'iu':
        ii = np.iinfo(dt)
        v = rng.integers(max(ii.min, -1000), min(ii.max, 1000), size=n, endpoint=True)
        v = v.astype(dt)
        if hostile and n:
            v[rng.random(n) < .1] = ii.max
            v[rng.random(n) < .1] = ii.min
    else:
        v = rng.normal(size=n) * 10.**rng.integers(-3, 4)
        if dt.kind == 'c':
            v = v + 1j * rng.normal(size=n)
        if hostile and n:
            with np.errstate(over='ignore'):
                v[rng.random(n) < .05] = np.nan
                v[rng.random(n) < .05] = np.inf
                v[rng.random(n) < .05] = 0.
    with np.errstate(over='ignore'):
        v = np.asarray(v).astype(dt)
    return v.reshape(shape)


def strided(rng, a):
    """The same values behind another memory layout."""
    k = int(rng.integers(4))
    if a.ndim == 0 or k == 0:
        return a
    if k == 1:
        return np.asfortranarray(a)
    if k == 2:
        b = np.empty((2 * a.shape[0],) + a.shape[1:], a.dtype)
        b[::2] = a
        return b[::2]
    b = np.array(a[::-1])
    return b[::-1]


def float_grid(rng, n, lo=-5., hi=5., minsep=.02):
    """Strictly ascending non-uniform nodes with a guaranteed separation."""
    w = minsep + rng.random(n)
    x = np.cumsum(w)
    x = (x - x[0]) / max(x[-1] - x[0], 1e-30) if n > 1 else x * 0.
    return lo + (hi - lo) * x


class Frozen:
    """Monitor that the arrays handed to the code under test stay as they were."""

    def __init__(self, **arrs):
        self.arrs = {k: v for k, v in arrs.items() if isinstance(v, np.ndarray)}
        self.copies = {k: np.array(v) for k, v in self.arrs.items()}

    def check(self, T, what=''):
        for k, v in self.arrs.items():
            T.check(v.tobytes() == self.copies[k].tobytes() and v.shape == self.copies[k].shape,
                    f'input array {k!r} was modified {what}', before=self.copies[k], after=v)
            T.ev('inputs_unchanged')
