"""Plain-h5py view of a file, and tree generators (independent of pyhipp)."""
import h5py
import numpy as np
from .gen import array, pick, chance, strided, H5_DTYPES
from .core import same

GNAMES = ['a', 'b', 'Snap', 'sub group', 'g.1', 'Größe', 'PartType0', 'x', 'load', 'keys', 'dump']
STRS = ['', 'hello', 'naïve β', 'a/b', ' ', 'line\nbreak', 'x' * 300]


def leaf(rng):
    k = int(rng.integers(12))
    if k < 6:
        return strided(rng, array(rng, dtype=pick(rng, H5_DTYPES)))
    if k == 6:
        return pick(rng, STRS)
    if k == 7:
        return pick(rng, [b'bytes', b'x', 'é'.encode()])
    if k == 8:
        return pick(rng, [0, -5, 2**40, 1.5, float('inf'), True, False, 2 - 3j])
    if k == 9:
        return array(rng, (), pick(rng, H5_DTYPES))[()]
    if k == 10:
        return np.array([b'ab', b'', b'longer'])[:int(rng.integers(1, 4))]
    n = int(rng.integers(0, 4))
    r = np.zeros(n, dtype=[('id', 'i8'), ('p', 'f4', (3,))])
    r['id'] = np.arange(n)
    r['p'] = rng.normal(size=(n, 3))
    return r


def tree(rng, depth=0, maxkeys=5):
    out = {}
    for k in rng.permutation(GNAMES)[:int(rng.integers(0 if depth else 1, maxkeys))]:
        out[str(k)] = tree(rng, depth + 1) if depth < 3 and chance(rng, .35) else leaf(rng)
    return out


def expected(v):
    """What reading back a stored leaf must give."""
    if isinstance(v, str):
        return v.encode()
    if isinstance(v, bytes):
        return v
    return np.asarray(v)


def leaf_ok(got, v):
    w = expected(v)
    if isinstance(w, bytes):
        return isinstance(got, bytes) and bytes(got) == w
    g = np.asarray(got)
    if g.shape != w.shape or (g.dtype if w.ndim else g.dtype.newbyteorder('=')) != \
            (w.dtype if w.ndim else w.dtype.newbyteorder('=')):
        return False
    if w.ndim and not isinstance(got, np.ndarray):
        return False
    return same(g, w)


def h5_ok(got, v):
    """got: what h5py returned."""
    return leaf_ok(got, v)


def tree_diff(got, want, path='', mapping=None):
    """First difference between a nested mapping read back and the written one."""
    from collections.abc import Mapping
    if not isinstance(got, Mapping):
        return f'{path or "/"}: not a mapping'
    if sorted(got) != sorted(want):
        return f'{path or "/"}: names {sorted(got)} != {sorted(want)}'
    for k, w in want.items():
        if isinstance(w, Mapping):
            d = tree_diff(dict(got.items())[k], w, f'{path}/{k}')
            if d:
                return d
        elif not leaf_ok(dict(got.items())[k], w):
            return f'{path}/{k}: got {dict(got.items())[k]!r}, wrote {w!r}'
    return None


def read_tree(path, where='/'):
    """Nested plain dict of a file, read with h5py only."""
    def rec(g):
        return {k: rec(v) if isinstance(v, h5py.Group) else v[()] for k, v in g.items()}
    with h5py.File(path, 'r') as f:
        o = f[where]
        return rec(o) if isinstance(o, h5py.Group) else o[()]


def read_attrs(path):
    out = {}
    with h5py.File(path, 'r') as f:
        out['/'] = dict(f.attrs)
        f.visititems(lambda n, o: out.__setitem__('/' + n, dict(o.attrs)))
    return out


def merge(a, b):
    out = dict(a)
    for k, v in b.items():
        out[k] = merge(out[k], v) if isinstance(v, dict) and isinstance(out.get(k), dict) else v
    return out


def leaves(t, pre=''):
    for k, v in t.items():
        if isinstance(v, dict):
            yield from leaves(v, f'{pre}{k}/')
        else:
            yield f'{pre}{k}', v


def groups(t, pre=''):
    for k, v in t.items():
        if isinstance(v, dict):
            yield f'{pre}{k}'
            yield from groups(v, f'{pre}{k}/')


def open_handles():
    return len(h5py.h5f.get_obj_ids(types=h5py.h5f.OBJ_FILE))
