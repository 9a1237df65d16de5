"""C09: small array utilities."""
import math
import numpy as np
from pyhipp.core import Num, DataDict, DataTable
from pyhipp.core.arrays import Array as CArray, DType
from pyhipp.core.arrays import array as arr_mod
from pyhipp.core.dataproc.mask import Mask
from pyhipp.core.dataproc.iter import Chunks
from pyhipp.core.dataproc import filter as flt
from pyhipp.core.dataproc.data_structs import Dict, Array as DArray
from ..core import Monitor, same
from ..gen import pick, chance, array, strided, Frozen

RULE = ('every helper on arrays of all dtypes, 0-3 dimensions, empty, strided, with NaN, infinities, extremes and values at the bounds, against '
        'element-by-element Python definitions. Identity is (helper, dtype, shape, options).')


def num(rng, kinds='fiu'):
    while True:
        a = array(rng)
        if a.dtype.kind in kinds:
            return strided(rng, a)


def bound1(v, lo, hi):
    if lo is not None and v < lo:
        v = lo
    if hi is not None and v > hi:
        v = hi
    return v


def bounds(rng, T):
    """Num.bound on scalars and arrays."""
    x = num(rng)
    isint = x.dtype.kind in 'iu'
    def b():
        if chance(rng, .3):
            return None
        if x.size and chance(rng, .4):
            v = x.ravel()[int(rng.integers(x.size))]
            return v if np.isfinite(v) else 1.
        return pick(rng, [0, 1, -3, 0.5, -2.25, 10, 1e-10])
    lo, hi = b(), b()
    if lo is not None and hi is not None and lo > hi:
        lo, hi = hi, lo
    if x.dtype == 'f2' or x.dtype == 'f4':
        lo = None if lo is None else x.dtype.type(lo)
        hi = None if hi is None else x.dtype.type(hi)
    if x.dtype.kind == 'u':                    # a bound the dtype cannot hold may be refused
        lo, hi = (None if v is not None and v == -3 else v for v in (lo, hi))
    fr = Frozen(x=x)
    T.note(x=x, lo=lo, hi=hi)
    fn = pick(rng, [Num.bound, Num.bound_array])
    got = fn(x, lo=lo, hi=hi) if chance(rng, .7) else fn(x, lo, hi, True)
    fr.check(T)
    T.check(isinstance(got, np.ndarray) and got.shape == x.shape and not np.shares_memory(got, x), 'bound must return a copy of the same shape')
    if not isint:
        T.check(got.dtype == x.dtype, 'bound changed a floating dtype')
    for g, v in zip(got.ravel(), x.ravel()):
        w = bound1(v, lo, hi)
        T.check(g == w or (w != w and g != g), 'bounded value differs', v=v, lo=lo, hi=hi, got=g, want=w)
        T.ev('clipped' if w is not v and not same(w, v) else 'kept')
    # in place
    if x.flags.writeable and not isint and x.ndim:
        y = x.copy()
        r = Num.bound(y, lo, hi, copy=False)
        T.check(r is y or np.shares_memory(r, y) or y.size == 0, 'copy=False must bound in place')
        T.eq(y, got, 'in-place bound differs from the copying one')
    for v in x.ravel()[:4]:
        s = v.item()
        if s == s:
            for f in (Num.bound, Num.bound_scalar):
                T.eq(f(s, lo=lo, hi=hi), bound1(s, lo, hi), 'scalar bound')
    # safe division and logarithms
    y = rng.normal(size=x.shape) * pick(rng, [1., 1e-9, 1e-11])
    z = rng.uniform(.5, 2, size=x.shape)
    l0 = pick(rng, [1e-10, 1e-3, 1.])
    fr = Frozen(y=y, z=z)
    T.close(Num.safe_div(z, y, lo=l0), z / np.maximum(y, l0), 'safe_div', rtol=1e-13)
    T.close(Num.safe_div(z, y), z / np.maximum(y, 1e-10), 'safe_div default', rtol=1e-13)
    for name, f in (('lg', np.log10), ('ln', np.log)):
        safe, plain = getattr(Num, 'safe_' + name), getattr(Num, name)
        T.close(safe(y, lo=l0), f(np.maximum(y, l0)), 'safe log', rtol=1e-12, atol=1e-12)
        T.close(safe(y), f(np.maximum(y, 1e-10)), 'safe log default', rtol=1e-12, atol=1e-12)
        t = safe(y, z, lo=l0)
        T.check(isinstance(t, tuple) and len(t) == 2, 'several arguments give a tuple')
        T.close(t[0], f(np.maximum(y, l0)), 'safe log of the first', rtol=1e-12, atol=1e-12)
        T.close(t[1], f(np.maximum(z, l0)), 'safe log of the second', rtol=1e-12, atol=1e-12)
        T.close(plain(z), f(z), 'log', rtol=1e-13, atol=1e-15)
        t = plain(z, z * 2, z * 3)
        T.check(len(t) == 3, 'tuple of logs')
        for k in range(3):
            T.close(t[k], f(z * (k + 1)), 'log of several', rtol=1e-13, atol=1e-14)
        T.close(safe(0.), f(1e-10), 'safe log of zero', rtol=1e-13)
        T.close(safe(0, lo=.5), f(.5), 'safe log of integer zero', rtol=1e-13)
        iz = rng.integers(-3, 4, size=3)
        T.close(safe(iz, lo=.25), f(np.maximum(iz.astype(float), .25)), 'safe log of integers', rtol=1e-12, atol=1e-12)
    fr.check(T)
    T.sig('bound', x.dtype.str, x.shape, lo, hi)


def norms(rng, T):
    """Norms and normalisation."""
    s = tuple(int(k) for k in rng.integers(1, 5, size=int(rng.integers(1, 4))))
    x = rng.normal(size=s) * 10. ** rng.integers(-3, 3)
    ax = int(rng.integers(-len(s), len(s)))
    if chance(rng, .3):
        sl = [slice(None)] * len(s)
        sl[ax % len(s)] = slice(None)
        sl[(ax + 1) % len(s)] = 0 if len(s) > 1 else slice(None)
        x[tuple(sl)] = 0.
    fr = Frozen(x=x)
    ref = np.sqrt(np.add.reduce(x * x, axis=ax))
    kd = chance(rng, .5)
    T.close(Num.norm(x, axis=ax, keepdims=kd), np.expand_dims(ref, ax) if kd else ref, 'norm', rtol=1e-12)
    T.close(Num.norm(x), np.sqrt((x * x).sum(-1)), 'norm over the last axis', rtol=1e-12)
    lo = pick(rng, [1e-10, 1e-2, 5.])
    got = Num.normalize(x, axis=ax, lo=lo)
    want = x / np.maximum(np.expand_dims(ref, ax), lo)
    T.close(got, want, 'normalised vector', rtol=1e-12, atol=1e-300)
    T.close(Num.normalize(x, ax), x / np.maximum(np.expand_dims(ref, ax), 1e-10), 'normalised vector, default floor', rtol=1e-12)
    T.close(Num.normalize(x.tolist()), x / np.maximum(np.sqrt((x * x).sum(-1, keepdims=True)), 1e-10), 'normalised list', rtol=1e-12)
    fr.check(T)
    y = x.copy()
    r = Num.normalize(y, axis=ax, lo=lo, inplace=True)
    T.check(np.shares_memory(r, y), 'in-place normalisation must reuse the array')
    T.close(y, want, 'in-place normalisation', rtol=1e-12)
    T.sig('norm', s, ax, kd, lo)
    T.ev('norm')


def masks(rng, T):
    """Mask helpers."""
    n = int(rng.integers(0, 9))
    m = rng.random(n) < pick(rng, [.5, 0., 1.])
    idx = Mask.bool_to_idx(pick(rng, [m, m.tolist()]) if n else m)
    T.eq([int(i) for i in idx], [i for i in range(n) if m[i]], 'indices of a mask')
    T.eq(Mask.idx_to_bool(n, idx), m, 'mask from indices')
    q = rng.integers(0, n, size=5) if n else np.zeros(0, int)
    b = Mask.idx_to_bool(n, pick(rng, [q, q.tolist()]) if n else q)
    T.eq(b, np.array([i in q for i in range(n)], bool), 'mask from repeated indices')
    T.raises(AssertionError, lambda: Mask.bool_to_idx(np.ones((2, 2), bool)), '2-D mask must be refused')
    T.raises(AssertionError, lambda: Mask.idx_to_bool(4, np.ones((2, 2), int)), '2-D index must be refused')
    # put
    dst = array(rng, (n,), 'f8', hostile=False)
    src = array(rng, (n,), 'f8', hostile=False)
    want = np.where(m, src, dst) if n else dst.copy()
    fr = Frozen(src=src, m=m)
    T.check(Mask.put(dst, src, m) is None, 'put returns nothing')
    T.eq(dst, want, 'masked assignment')
    if n:
        Mask.put(dst, 7., m)
        T.eq(dst, np.where(m, 7., want), 'masked scalar assignment')
    # zip
    k = int(rng.integers(1, 4))
    ms = [rng.random(n) < .4 for _ in range(k)]
    as_ = [array(rng, (n,), 'f8', hostile=False) for _ in range(k)]
    dflt = pick(rng, [None, -1., 5., 0.])
    got = Mask.zip(ms, as_) if dflt is None else Mask.zip(ms, as_, default=dflt)
    for i in range(n):
        w = next((float(a[i]) for q, a in zip(ms, as_) if q[i]), 0. if dflt is None else dflt)
        T.check(got[i] == w, 'masked zip', i=i, got=got[i], want=w)
    # arrays, dicts
    a = strided(rng, array(rng, (n, 2) if chance(rng, .3) else (n,)))
    c = array(rng, (n,))
    sel = pick(rng, [m, idx, slice(0, n // 2), slice(None, None, 2)])
    cp = chance(rng, .5)
    r = Mask.on_array(sel, a, copy=cp)
    T.check(same(r, a[sel]) and r.dtype == a.dtype, 'masked array')
    if cp or not isinstance(sel, slice):
        T.check(not np.shares_memory(r, a), 'masked copy shares memory')
    elif r.size:
        T.check(np.shares_memory(r, a), 'view was copied although no copy was requested')
    r = Mask.on_arrays(sel, a, c, copy=cp)
    T.check(isinstance(r, tuple) and len(r) == 2 and same(r[0], a[sel]) and same(r[1], c[sel]), 'several masked arrays')
    T.check(same(Mask.on_arrays(sel, a), a[sel]), 'one masked array')
    for cls in (dict, DataDict, DataTable):
        d = cls({'a': a, 'c': c})
        r = Mask.on_dict(d, sel, copy=cp)
        T.check(type(r) is cls and list(r) == ['a', 'c'] and same(r['a'], a[sel]) and same(r['c'], c[sel]), 'masked mapping', cls=cls.__name__)
        T.check(same(d['a'], a), 'masking changed the mapping')
        if cls is not DataTable and cp:
            T.check(not np.shares_memory(r['a'], a), 'masked mapping shares memory although a copy was requested')
    fr.check(T)
    T.ev('mask')
    T.sig('mask', n, k, type(sel).__name__, cp, a.dtype.str, m)


def chunks(rng, T):
    """Chunk iteration covers the sequence in order."""
    sizes = [int(k) for k in rng.integers(0, 5, size=int(rng.integers(0, 7)))]
    n = sum(sizes)
    it = pick(rng, [list, tuple, iter, np.array])(sizes) if sizes else sizes
    want, b = [], 0
    for k in sizes:
        want.append((b, b + k))
        b += k
    T.eq([tuple(int(x) for x in r) for r in Chunks.ranges_by_sizes(it)], want, 'chunk ranges', sizes=sizes)
    seq = pick(rng, [list(range(n)), np.arange(n), 'abcdefghijklmnopqrstuvwxyz'[:n] if n <= 26 else tuple(range(n))])
    one = list(Chunks.slices_by_sizes(sizes, seq))
    T.check(len(one) == len(sizes) and all(same(x, seq[b:e]) for x, (b, e) in zip(one, want)), 'chunks of one sequence')
    s2 = np.arange(n) * 2
    two = list(Chunks.slices_by_sizes(iter(sizes), seq, s2))
    T.check(len(two) == len(sizes) and all(isinstance(t, tuple) and same(t[0], seq[b:e]) and same(t[1], s2[b:e])
                                           for t, (b, e) in zip(two, want)), 'chunks of two sequences')
    # offsets
    cnt = np.array(sizes, int)
    off = DArray.count_to_offset(pick(rng, [cnt, sizes]))
    T.eq([int(x) for x in off], [0] + [e for _, e in want], 'offsets of counts')
    T.eq([int(x) for x in DArray.count_to_offset(cnt, has_end=False)], [b for b, _ in want], 'offsets without end')
    pr = DArray.count_to_offset_pairs(cnt)
    T.check(pr.shape == (len(sizes), 2) and [tuple(int(v) for v in r) for r in pr] == want, 'offset pairs')
    # counts whose sum exceeds 32 bits, in narrow dtypes
    big = rng.integers(0, 2**31 - 1, size=int(rng.integers(1, 6)))
    want = [0]
    for v in big:
        want.append(want[-1] + int(v))
    dt = pick(rng, ['i8', 'i4', 'u4'])
    T.eq([int(v) for v in DArray.count_to_offset(big.astype(dt))], want, 'offsets of large counts', counts=big, dtype=dt)
    T.eq([[int(v) for v in r] for r in DArray.count_to_offset_pairs(big.astype(dt))], [[b, e] for b, e in zip(want, want[1:])], 'offset pairs of large counts')
    small = rng.integers(0, 128, size=int(rng.integers(1, 9))).astype(pick(rng, ['i1', 'u1', 'i2', 'u2']))
    T.eq([int(v) for v in DArray.count_to_offset(small)], [0] + [sum(int(v) for v in small[:k + 1]) for k in range(len(small))], 'offsets of narrow counts')
    T.ev('chunks')
    T.sig('chunks', sizes)


def misc(rng, T):
    """Filters, dictionaries, conversions, typed arrays."""
    x = num(rng)
    lo = pick(rng, [None, -1, 0, 0.5, -3])
    hi = pick(rng, [None, 1, 2.5, 100, 0])
    f = flt.Range(min=lo, max=hi)
    fr = Frozen(x=x)
    got = f(x) if chance(rng, .7) else f(x.tolist() if x.dtype == 'f8' or x.dtype == 'i8' else x)
    fr.check(T)
    want = [v for v in x.ravel() if (lo is None or v >= lo) and (hi is None or v < hi)]
    T.check(got.ndim == 1 and len(got) == len(want) and all(a == b or (a != a and b != b) for a, b in zip(got, want)), 'range filter',
            lo=lo, hi=hi, x=x, got=got)
    T.ev('filter')
    # dictionaries
    def val():
        return pick(rng, [int(rng.integers(9)), None, 0, '', False, ()])
    ds = [None if chance(rng, .2) else {pick(rng, 'abcd'): val() for _ in range(int(rng.integers(0, 3)))} for _ in range(3)]
    kw = {k: val() for k in 'ae' if chance(rng, .8)}
    cp = [None if d is None else dict(d) for d in ds]
    ref = {}
    for d in ds:
        ref |= d or {}
    ref |= kw
    T.eq(Dict.combine_dicts(*ds, **kw), ref, 'combined dictionaries')
    T.eq(Dict(*ds, **kw).d, ref, 'combined dictionaries (object)')
    T.eq(ds, cp, 'combining changed its inputs')
    e1 = Dict.none_to_empty()
    e1['q'] = 1
    T.check(Dict.none_to_empty(None) == {}, 'the empty default is shared')
    T.check(Dict.none_to_empty(e1) is e1, 'none_to_empty must pass mappings through')
    # conversions
    a = array(rng)
    for c in (True, False):
        r = DArray.as_array(a, copy=c)
        T.check(same(r, a) and r.dtype == a.dtype and np.shares_memory(r, a) == (not c and a.size > 0), 'as_array copy flag', copy=c)
        t = DArray.as_array(a, None, [1, 2], copy=c)
        T.check(isinstance(t, tuple) and len(t) == 3 and same(t[0], a) and t[1] is None and same(t[2], np.array([1, 2])), 'as_array of several')
        T.check(c or a.size == 0 or np.shares_memory(t[0], a), 'as_array of several copied')
        T.check(not c or not np.shares_memory(t[0], a), 'as_array of several shares memory')
    T.check(DArray.as_array(None) is None, 'as_array(None)')
    T.raises(AssertionError, lambda: DArray.as_array(), 'as_array of nothing must be refused')
    # typed arrays
    if a.dtype.kind != 'c':
        A = CArray(a)
        d = A.to_simple_repr()
        T.check(same(d['data'], a) and d['n_dims'] == a.ndim and tuple(d['shape']) == a.shape and d['dtype'] == str(a.dtype) and d['type'] == 'Array',
                'description of an array', d=d)
        T.check(A.n_dims == a.ndim and A.size == a.size, 'array dims')
        T.check((not a.ndim) or len(A) == len(a), 'array length')
        T.check([int(v) for v in A.shape.to_simple_repr()['data']] == list(a.shape), 'array shape')
        dt = A.dtype
        T.check(dt.size == a.dtype.itemsize and dt.alignment == a.dtype.alignment and dt.byte_order == a.dtype.byteorder, 'dtype attributes')
        for B, w in [(A.copied(), a), (A.flatten(), a.ravel()), (A.flatten(copy=False), a.ravel()), (CArray(A), a),
                     (A.sorted(), np.sort(a, axis=None))]:
            T.check(same(B.to_simple_repr()['data'], w), 'derived array differs', got=B.to_simple_repr()['data'], want=w)
        C = CArray(a, copy=True) if chance(rng, .5) else CArray(a)
        if a.dtype.kind == 'b' or a.dtype.kind in 'iuf' and np.isfinite(a).all() and (np.abs(a.astype(float)) < 1e9).all():
            nm = pick(rng, ['float64', 'int64', 'float32'])
            want = a.astype(nm)
            for spec in (nm, np.dtype(nm), DType(nm), getattr(DType, nm)()):
                for src in (a, A, a.tolist()):
                    q = CArray(src, dtype=spec, copy=chance(rng, .5)).to_simple_repr()
                    T.check(q['dtype'] == nm and same(q['data'], want.reshape(np.shape(q['data'])) if a.size == 0 else want), 'array of a requested dtype', got=q['data'], want=want)
                    if not chance(rng, .5):
                        continue
                    f = CArray(src, spec, True).to_simple_repr()['data']
                    T.check(not np.shares_memory(f, a), 'array of a requested dtype shares memory')
        if a.size:
            T.check(not np.shares_memory(C.to_simple_repr()['data'], a), 'array shares memory with its source')
            T.check(np.shares_memory(CArray(a, copy=False).to_simple_repr()['data'], a), 'copy=False copied')
        if a.ndim and not (a.dtype.kind == 'f' and np.isnan(a).any()):
            ax = int(rng.integers(a.ndim))
            kind = pick(rng, [None, 'stable', 'mergesort'])
            T.eq(A.sorted(axis=ax, kind=kind).to_simple_repr()['data'], np.sort(a, axis=ax), 'sorted along an axis')
            o = A.argsort(axis=ax, kind='stable').to_simple_repr()['data']
            T.eq(np.take_along_axis(a, o, ax), np.sort(a, axis=ax), 'argsort along an axis')
            O = A.argsort(kind=kind)
            o = O.to_simple_repr()['data']
            T.check(O.n_indexed == a.size and sorted(int(i) for i in o) == list(range(a.size)), 'flat argsort is not a permutation')
            T.eq(a.ravel()[o], np.sort(a, axis=None), 'flat argsort')
            ties = rng.integers(0, 4, size=int(rng.integers(1, 200))).astype(pick(rng, ['i8', 'f4', 'i2']))
            kind = pick(rng, ['stable', 'mergesort'])
            T.eq(CArray(ties).argsort(kind=kind).to_simple_repr()['data'], np.argsort(ties, kind=kind), 'stable argsort does not keep the order of equal items')
        sh = pick(rng, [3, (2, 3), [1, 2, 2], (0,)])
        for mk, v in ((CArray.zeros, 0), (CArray.ones, 1)):
            z = mk(sh, dtype=pick(rng, [DType('i4'), DType.int32()]))
            q = z.to_simple_repr()['data']
            T.check(q.dtype == 'i4' and q.shape == ((sh,) if np.isscalar(sh) else tuple(sh)) and (q == v).all(), 'zeros/ones')
            T.check(mk(sh).to_simple_repr()['data'].dtype == 'f8', 'default dtype')
        for nm in ('int32', 'int64', 'float32', 'float64'):
            T.check(getattr(DType, nm)().size == np.dtype(nm).itemsize and repr(np.dtype(nm)) == getattr(DType, nm)().to_simple_repr()['_impl'], 'dtype by name')
        ia = arr_mod.IndexArray([4, 5], [[0, 1], [3, 4]])
        T.check(ia.n_dims == 2, 'index array')
        T.raises(AssertionError, lambda: arr_mod.IndexArray([4, 5, 6], [[0, 1]]), 'index array of another dimension must be refused')
        T.raises(AssertionError, lambda: arr_mod.FlatIndexArray(4, [[0, 1]]), '2-D flat index must be refused')
        T.raises(AssertionError, lambda: arr_mod.Shape([[1]]), '2-D shape must be refused')
    T.sig('misc', x.dtype.str, x.shape, lo, hi, a.dtype.str, a.shape)


MONITORS = [
    Monitor('bounds', bounds, 1200, 10000, need={'clipped': 200, 'kept': 300}),
    Monitor('norms', norms, 600, 5000),
    Monitor('masks', masks, 900, 8000, need={'mask': 100}),
    Monitor('chunks', chunks, 500, 4000),
    Monitor('misc', misc, 900, 8000, need={'filter': 100}),
]
