"""C31: answers depend on the values given, not on how they are stored."""
import warnings
import numpy as np
from ..core import Monitor
from ..gen import pick, chance
from .. import fakehmf
from . import c27
from .c27 import World, OPS, ours

RULE = ('one public computing call per case, made twice on equal inputs: plain contiguous arrays, and the same values behind another memory layout, container or integer type. '
        'Identity is (call, representation, values).')

LAYOUTS = ['strided', 'reversed', 'last axis', 'fortran', 'read-only', 'offset']
REFUSE = (TypeError, AttributeError, ValueError, IndexError, KeyError, AssertionError)


def plain(a):
    return np.array(a, order='C')


def relay(rng, a, k):
    """Equal values, stored differently."""
    if a.ndim == 0 or a.dtype.kind not in 'fiubc':
        return a
    if k == 'strided':
        b = np.zeros((3 * a.shape[0],) + a.shape[1:], a.dtype)
        b[1::3] = a
        return b[1::3]
    if k == 'reversed':
        return np.array(a[::-1], order='C')[::-1]
    if k == 'last axis':
        b = np.zeros(a.shape[:-1] + (2 * a.shape[-1],), a.dtype)
        b[..., 1::2] = a
        return b[..., 1::2]
    if k == 'fortran':
        return np.array(a, order='F')
    if k == 'read-only':
        b = plain(a)
        b.flags.writeable = False
        return b
    if k == 'offset':       # a window of a larger array
        b = np.zeros(tuple(s + 3 for s in a.shape), a.dtype)
        w = tuple(slice(2, 2 + s) for s in a.shape)
        b[w] = a
        return b[w]
    if k == 'unaligned':
        buf = np.zeros(a.nbytes + 1, np.uint8)
        b = np.ndarray(a.shape, a.dtype, buf.data, 1)
        b[...] = a
        return b
    if k == 'list':
        return a.tolist()
    return a.astype(k) if a.dtype.kind == 'f' else a


def same(x, y, types, path='', strict=True):
    """None, or where two results differ; one of lists and unaligned data may be refused (not strict)."""
    if not strict and isinstance(y, str) and y.startswith('refused: '):
        return None
    if isinstance(x, np.ma.MaskedArray) or hasattr(x, 'unit') and hasattr(x, 'value'):
        x, y = np.asarray(getattr(x, 'value', x)), np.asarray(getattr(y, 'value', y))
    if isinstance(x, (np.ndarray, bool, int, float, complex, np.generic)):
        a, b = np.asarray(x), np.asarray(y)
        if a.dtype.kind not in 'fciub' or b.dtype.kind not in 'fciub':
            return None if a.shape == b.shape else f'{path}: shape {b.shape} instead of {a.shape}'
        if a.shape != b.shape:
            return f'{path}: shape {b.shape} instead of {a.shape}'
        if types and a.dtype != b.dtype:
            return f'{path}: type {b.dtype} instead of {a.dtype}'
        fin = np.abs(a[np.isfinite(a)]) if a.size else a
        if not np.allclose(a, b, rtol=1e-8, atol=1e-10 * float(np.max(fin, initial=1.)), equal_nan=True):
            i = np.argwhere(~np.isclose(a, b, rtol=1e-8, atol=1e-10, equal_nan=True))
            return f'{path}: values, first at {i[:1].tolist()}: {b.ravel()[:8]} instead of {a.ravel()[:8]}'
        return None
    if isinstance(x, str) or x is None:
        return None if type(x) is type(y) and (not types or x == y) else f'{path}: {y!r} instead of {x!r}'
    if isinstance(x, (list, tuple)):
        if type(x) is not type(y) or len(x) != len(y):
            return f'{path}: {type(y).__name__} of {len(y)} instead of {type(x).__name__} of {len(x)}'
        items = [(i, x[i], y[i]) for i in range(len(x))]
    elif hasattr(x, 'items') and hasattr(x, 'keys'):
        if list(x.keys()) != list(y.keys()):
            return f'{path}: names'
        items = [(k, x[k], y[k]) for k in x.keys()]
    elif hasattr(x, '__dict__') and type(x).__module__.startswith('pyhipp'):
        items = [(k, v, getattr(y, k, None)) for k, v in vars(x).items()]
    else:
        return None
    for k, p, q in items:
        r = same(p, q, types, f'{path}.{k}', strict)
        if r:
            return r
    return None


def representation(rng, T):
    """The same call on the same values in another representation."""
    f = pick(rng, OPS)
    k = pick(rng, LAYOUTS + LAYOUTS + ['unaligned', 'list', 'i8', 'i4'])
    s = int(rng.integers(2**31))
    integral = k in ('i8', 'i4')

    part = ()

    def base(a, v):
        if not isinstance(v, np.ndarray) or not v.ndim:
            return v
        v = plain(v)
        return np.round(v * 4) if integral and a in part and v.dtype.kind == 'f' else v

    def make():
        g = np.random.default_rng(s)
        fn, inp = f(World(g), g)
        return fn, {a: base(a, v) for a, v in inp.items()}
    T.note(call=f.__name__, seed=s, representation=k)
    fn, inp = make()
    names = [a for a, v in inp.items() if isinstance(v, np.ndarray) and v.ndim]
    if not names:
        return
    part = names if chance(rng, .6) else [pick(rng, names)]
    T.note(part=part)
    fn, inp = make()
    try:
        want = fn(**inp)
    except Exception:
        if k in LAYOUTS:        # nor does a layout turn a refusal into an answer
            fn, inp = make()
            inp |= {a: relay(rng, inp[a], k) for a in names}
            T.raises(Exception, lambda: fn(**inp), f'{f.__name__}: {k} arguments are accepted, plain ones are not')
            T.ev('refused alike')
        return
    fn, inp = make()
    keep = {a: np.array(inp[a]) for a in part}
    inp |= {a: relay(rng, inp[a], k) for a in part}
    if k in LAYOUTS:
        got = fn(**inp)
    else:
        try:
            got = fn(**inp)
        except REFUSE as e:
            if type(e).__name__ == 'AssertionError' and integral:
                raise
            T.ev(f'refused {k}')
            return
        except Exception as e:
            if type(e).__module__.startswith('numba'):
                T.ev(f'refused {k}')
                return
            raise
    # the type of the answer may follow the type of the values, not their layout
    r = same(want, got, k in LAYOUTS or k in ('unaligned',), strict=k in LAYOUTS)
    T.check(r is None, f'{f.__name__}: the answer for {k} arguments differs: {r}', arguments=part)
    for a in part:
        T.check(np.array_equal(np.asarray(inp[a]), keep[a], equal_nan=keep[a].dtype.kind in 'fc'), f'{f.__name__}: input {a!r} was modified')
    T.ev(k)
    T.state('calls', (f.__name__, k))
    T.sig(f.__name__, k, s)


def setup():
    fakehmf.install()
    warnings.simplefilter('ignore')
    c27.setup()


MONITORS = [
    Monitor('representation', representation, 4000, 80000, shards=6, setup=setup, need={**{k: 100 for k in LAYOUTS}, 'list': 20, 'unaligned': 50, 'i8': 40, 'i4': 40}),
]
