"""C02: column tables (DataTable)."""
import copy, pickle
import numpy as np
from pyhipp.core import DataTable
from ..core import Monitor, same
from ..gen import pick, chance, array, strided, NAMES

RULE = ('histories of 10-40 operations over a pool of column tables mirrored by a model that tracks, for every column, '
        'its values and which memory it may share; after each operation all live tables are compared and one column is '
        'written through to expose unwanted sharing. Non-trivial: at least one copying and one row operation; identity '
        'is the operation sequence with dtypes and shapes.')
OWN = ['copy', 'items', 'iloc', 'subset', 'concat']     # names the table itself uses
COLS = [n for n in NAMES if n.isidentifier()] + ['k-1', 'x y', '', '0'] + OWN


def like(rng, shape, dt, **kw):
    if dt.kind in 'US':
        return np.array(['', 'a', 'Gr_e' if dt.kind == 'S' else 'Größe', 'long name', 'b c'])[rng.integers(0, 5, shape)].astype(dt)
    return array(rng, shape, dt, **kw)


def col(rng, n):
    extra = pick(rng, [(), (), (3,), (2, 2)])
    if chance(rng, .12):
        return strided(rng, like(rng, (n,) + extra, np.dtype(pick(rng, ['U9', 'U9', 'S9']))))
    return strided(rng, array(rng, (n,) + extra))


class M:
    """Model of one table: ordered {name: buffer}; a buffer is shared by
    reference exactly when the table was asked not to copy."""
    def __init__(self, t, cols, n):
        self.t, self.cols, self.n = t, cols, n


def compare(T, m):
    t = m.t
    T.eq(list(t), list(m.cols), 'columns or their order differ')
    T.eq(list(t.keys()), list(m.cols), 'keys() differ')
    T.eq(len(t), len(m.cols), 'number of columns differs')
    for (k, w), (ik, iv), vv in zip(m.cols.items(), t.items(), t.values(), strict=True):
        v = t[k]
        T.check(isinstance(v, np.ndarray), 'column is not an array')
        T.check(v.dtype == w.dtype and same(v, w), f'column {k!r} differs from the history', got=v, want=w)
        T.check(ik == k and iv is v and vv is v, 'items()/values() disagree with indexing')
        T.check(k in t, 'column reported absent')
        if k in OWN:
            T.ev('column_named_like_a_method')
            T.check(callable(getattr(t, k)) or k == 'iloc', 'a column took the place of a method')
        elif k.isidentifier():
            T.check(getattr(t, k) is v, 'attribute access returns another object')
            T.check(k in dir(t), 'column missing from dir()')
    T.ev('table_compared')


def scribble(rng, a):
    """Overwrite one element in place; returns False when impossible."""
    if a.size == 0 or not a.flags.writeable:
        return False
    i = tuple(int(rng.integers(s)) for s in a.shape)
    a[i] = like(rng, (), a.dtype, hostile=False)
    return True


def rows(rng, n):
    """A row selector and the reference selection of an index range."""
    k = int(rng.integers(8))
    if k == 5:
        return Ellipsis
    if k == 6:
        return (slice(0, max(n - 1, 0)),)
    if k == 7:
        return (slice(None, None, 2), Ellipsis)
    if k == 0 or n == 0:
        a, b = sorted(int(x) for x in rng.integers(-1, n + 2, 2))
        return slice(a if a >= 0 else None, b, pick(rng, [None, 1, 2]))
    if k == 1:
        return rng.random(n) < .5
    if k == 2:
        return rng.integers(-n, n, size=int(rng.integers(0, 2 * n)))
    if k == 3:
        return rng.permutation(n)
    return slice(None, None, -1)


def history(rng, T):
    """Random table histories against a model that knows what may be shared."""
    ops = []

    def new(n=None):
        n = int(rng.integers(0, 7)) if n is None else n
        names = [str(x) for x in rng.permutation(COLS)[:rng.integers(1, 5)]]
        src = {k: col(rng, n) for k in names}
        if chance(rng, .2):
            src = {k: v.tolist() if v.dtype.kind in 'fb' and v.dtype != 'f2' and v.dtype != 'f4' and v.size else v
                   for k, v in src.items()}
        cp = chance(rng, .7)
        t = DataTable(src) if cp and chance(rng, .5) else DataTable(src, copy=cp)
        cols = {}
        for k, v in src.items():
            if isinstance(v, np.ndarray) and not cp:
                T.check(np.shares_memory(t[k], v) or v.size == 0, 'copy=False made a copy', k=k)
                cols[k] = v
                T.ev('shared_on_request')
            else:
                cols[k] = np.array(v)
                if isinstance(v, np.ndarray):
                    T.check(not np.shares_memory(t[k], v), 'the table shares memory with its source', k=k)
                    scribble(rng, v)
        ops.append(('new', cp, [(k, v.dtype.str, v.shape) for k, v in cols.items()]))
        return M(t, cols, n)
    pool = [new(), new()]
    ncopy = nrow = 0
    for _ in range(int(rng.integers(10, 40))):
        m = pick(rng, pool)
        t = m.t
        op = pick(rng, ['copy', 'clone', 'subset', 'iloc', 'subcol', 'concat', 'or', 'ior', 'update', 'set', 'tset',
                        'tget', 'pop', 'popitem', 'setdefault', 'del', 'tdel', 'scribble', 'todict', 'tolist', 'stack', 'missing', 'clear', 'badset',
                        'repr'])
        T.note(op=op, cols=list(m.cols), n=m.n)
        held = [] if op == 'scribble' else [(k, v, v.copy()) for k, v in t.items()]

        def newcol(k, n):
            # often of the present shape and dtype
            old = m.cols.get(k)
            return strided(rng, like(rng, old.shape, old.dtype)) if old is not None and chance(rng, .5) else col(rng, n)
        if op == 'copy':
            pool.append(M(t.copy(), {k: v.copy() for k, v in m.cols.items()}, m.n))
            ncopy += 1
        elif op == 'clone':
            how = pick(rng, ['pickle', 'copy', 'deepcopy'])
            if how == 'pickle':
                u = pickle.loads(pickle.dumps(t))
            elif how == 'copy':
                u = copy.copy(t)           # shallow: only its contents now are specified
            else:
                u = copy.deepcopy(t)
            T.check(isinstance(u, DataTable), 'clone is not a table')
            nm = M(u, {k: v.copy() for k, v in m.cols.items()}, m.n)
            compare(T, nm)
            if how != 'copy':
                pool.append(nm)
            T.ev('clone_' + how)
        elif op in ('subset', 'iloc'):
            sel = rows(rng, m.n)
            if op == 'iloc':
                u, cp = t.iloc[sel], True
            else:
                cp = chance(rng, .7)
                u = t.subset(sel) if cp and chance(rng, .5) else t.subset(sel, copy=cp)
            ref = {k: v[sel] for k, v in m.cols.items()}
            if not cp and not isinstance(sel, np.ndarray):
                for k in ref:
                    T.check(np.shares_memory(u[k], t[k]) or u[k].size == 0, 'subset(copy=False) copied', k=k)
            cols = {k: (v if (not cp) else np.array(v)) for k, v in ref.items()}
            for k in cols:
                if cp:
                    T.check(not np.shares_memory(u[k], t[k]), 'subset shares memory with the table', k=k)
            n = len(np.arange(m.n)[sel])
            pool.append(M(u, cols, n))
            nrow += 1
        elif op == 'subcol':
            ks = [k for k in m.cols if chance(rng, .6)]
            ks = [str(k) for k in rng.permutation(ks)] if ks else []
            cp = chance(rng, .6)
            u = t.subcol(tuple(ks)) if cp and chance(rng, .5) else t.subcol(tuple(ks), copy=cp)
            if not cp:
                for k in ks:
                    T.check(np.shares_memory(u[k], t[k]) or u[k].size == 0, 'subcol(copy=False) copied', k=k)
            pool.append(M(u, {k: (m.cols[k].copy() if cp else m.cols[k]) for k in ks}, m.n))
        elif op == 'concat':
            others = []
            for _ in range(int(rng.integers(0, 3))):
                n2 = int(rng.integers(0, 5))
                src = {k: like(rng, (n2,) + v.shape[1:], v.dtype) for k, v in m.cols.items()}
                ks = [str(k) for k in rng.permutation(list(src))] if src else []
                src = {k: src[k] for k in ks} | {'extra_': np.zeros(n2)}
                if chance(rng, .4):            # other dtypes: the joined column holds every value
                    for k, v in src.items():
                        if v.dtype.kind in 'biuf' and chance(rng, .5):
                            src[k] = array(rng, v.shape, pick(rng, ['f8', 'i8', 'f4', 'i2', '?', 'u1', 'c16']))
                            T.ev('concat_other_dtype')
                others.append(src if chance(rng, .3) else DataTable(src))
            if chance(rng, .3):
                others.append(t)
            if m.cols and chance(rng, .2):
                gone = pick(rng, list(m.cols))
                short = {k: v for k, v in m.cols.items() if k != gone}
                T.raises(Exception, lambda: t.concat(*others, short if chance(rng, .5) else DataTable(short)), 'concat of a table without one of the columns', gone=gone)
                T.ev('concat_missing')
            u = t.concat(*others)
            cols = {k: np.concatenate([m.cols[k]] + [(m.cols[k] if o is t else o[k]) for o in others])
                    for k in m.cols}
            for k in cols:
                T.check(not np.shares_memory(u[k], t[k]), 'concat shares memory with its input', k=k)
            pool.append(M(u, cols, m.n + sum(len(next(iter(o.values()))) if len(o) else 0 for o in others)))
            if others and m.cols:
                pool[-1].n = len(next(iter(cols.values())))
            nrow += 1
        elif op in ('or', 'ior', 'update'):
            src = {str(k): newcol(str(k), m.n) for k in rng.permutation(COLS)[:rng.integers(0, 4)]}
            oth = src if chance(rng, .5) else DataTable(src)
            if op == 'or':
                u = t | oth
                T.check(isinstance(u, DataTable) and u is not t, 'union must be a new table')
                cols = {k: v.copy() for k, v in m.cols.items()}
                cols.update({k: v.copy() for k, v in src.items()})
                pool.append(M(u, cols, m.n))
                for k in u:
                    T.check(not np.shares_memory(u[k], t[k]) if k not in src else not np.shares_memory(u[k], oth[k]), 'union shares memory', k=k)
                ncopy += 1
            elif op == 'ior':
                u = t
                u |= oth
                T.check(u is t, 'in-place union must keep the object')
                m.cols.update({k: v.copy() for k, v in src.items()})
                for k in src:
                    T.check(not np.shares_memory(t[k], oth[k]), 'in-place union shares memory with its source', k=k)
            else:
                cp = chance(rng, .7)
                t.update(oth, copy=cp) if chance(rng, .5) or not cp else t.update(oth)
                for k, v in src.items():
                    if cp:
                        T.check(not np.shares_memory(t[k], oth[k]), 'update shares memory', k=k)
                    else:
                        T.check(np.shares_memory(t[k], oth[k]) or v.size == 0, 'update(copy=False) copied')
                    m.cols[k] = v.copy() if cp else oth[k]
            if op != 'update':
                for k in src:
                    scribble(rng, oth[k])
        elif op == 'set':
            k = pick(rng, COLS)
            v = newcol(k, m.n)
            t[k] = v
            m.cols[k] = v.copy()
            T.check(not np.shares_memory(t[k], v), 'assignment must copy', k=k)
            scribble(rng, v)
        elif op == 'tset':
            ks = [str(k) for k in rng.permutation(COLS)[:rng.integers(1, 4)]]
            vs = [newcol(k, m.n) for k in ks]
            t[tuple(ks)] = vs if chance(rng, .5) else tuple(vs)
            m.cols.update({k: v.copy() for k, v in zip(ks, vs)})
            for v in vs:
                scribble(rng, v)
        elif op == 'badset':
            T.raises((AssertionError, ValueError), lambda: t.__setitem__(('a', 'b'), (np.zeros(m.n),)),
                     'tuple assignment of another length must be refused')
        elif op == 'tget':
            ks = [k for k in m.cols if chance(rng, .5)]
            got = t[tuple(ks)]
            T.check(isinstance(got, tuple) and len(got) == len(ks) and all(g is t[k] for g, k in zip(got, ks)),
                    'tuple access is not element-wise')
        elif op == 'del':
            if m.cols:
                k = pick(rng, list(m.cols))
                del t[k]
                del m.cols[k]
        elif op == 'pop':
            k = pick(rng, COLS)
            if k in m.cols:
                v = t[k]
                T.check((t.pop(k) if chance(rng, .5) else t.pop(k, None)) is v, 'pop returned another array')
                del m.cols[k]
            else:
                T.check(t.pop(k, 5) == 5, 'pop of an absent column')
                T.raises(KeyError, lambda: t.pop(k), 'pop of an absent column')
        elif op == 'popitem':
            if m.cols and chance(rng, .4):
                ref = dict(t.items())
                k, v = t.popitem()
                T.check(k in ref and ref[k] is v, 'popitem returned something else')
                del m.cols[k]
        elif op == 'setdefault':
            k, v = pick(rng, COLS), None
            v = newcol(k, m.n)
            if k in m.cols:
                old = t[k]
                T.check(t.setdefault(k, v) is old and t[k] is old, 'setdefault replaced a column')
            else:
                t.setdefault(k, v)
                m.cols[k] = v.copy()
                T.check(not np.shares_memory(t[k], v), 'assignment must copy', k=k)
                scribble(rng, v)
        elif op == 'tdel':
            gone = [k for k in COLS if k not in m.cols]
            if gone and chance(rng, .3):
                k = pick(rng, gone)
                T.raises(KeyError, lambda: t.__delitem__(pick(rng, [k, (k,)])), 'deleting an absent column')
                T.raises(KeyError, lambda: t[(k,)], 'an absent column in a tuple')
            ks = [k for k in m.cols if chance(rng, .4)]
            del t[tuple(ks)]
            for k in ks:
                del m.cols[k]
        elif op == 'missing':
            for k in COLS:
                if k not in m.cols:
                    T.check(k not in t, 'absent column reported present')
                    T.raises(KeyError, lambda: t[k], 'absent column must raise KeyError')
                    T.check(t.get(k, 7) == 7, 'get of an absent column')
                    if k not in OWN:
                        T.raises(AttributeError, lambda: getattr(t, k), 'absent attribute must raise AttributeError')
                        T.check(not hasattr(t, k), 'hasattr of an absent column')
        elif op == 'scribble':
            if m.cols:
                k = pick(rng, list(m.cols))
                v = t[k]
                if v.size and v.flags.writeable:
                    i = tuple(int(rng.integers(s)) for s in v.shape)
                    x = like(rng, (), v.dtype, hostile=False)
                    v[i] = x                      # a column access is a reference
                    m.cols[k][i] = x
                    T.ev('written_through')
        elif op == 'todict':
            cp = chance(rng, .5)
            d = t.to_dict() if cp and chance(rng, .5) else t.to_dict(copy=cp)
            T.check(type(d) is dict, 'to_dict must return a dict')
            T.eq(d, dict(m.cols), 'to_dict differs')
            for k in d:
                T.check((not np.shares_memory(d[k], t[k])) if cp else (d[k].size == 0 or np.shares_memory(d[k], t[k])),
                        'to_dict(copy=) not honoured', copy=cp)
            if cp:
                for v in d.values():
                    scribble(rng, v)
        elif op == 'tolist':
            d = t.to_dict_of_list()
            T.check(all(type(v) is list for v in d.values()), 'to_dict_of_list must hold lists')
            for k, v in m.cols.items():
                flat = d[k]
                for _ in range(v.ndim - 1):
                    T.check(all(type(a) is list for a in flat), 'to_dict_of_list must hold lists at every level', k=k)
                    flat = [b for a in flat for b in a]
                if v.dtype.kind in 'biufcSU':
                    T.check(not any(isinstance(a, np.generic | np.ndarray) for a in flat) or v.dtype.char == 'g', 'to_dict_of_list must hold plain numbers', k=k, dtype=v.dtype)
            T.check(list(d) == list(m.cols) and all(same(np.array(d[k], dtype=v.dtype).reshape(v.shape), v)
                    for k, v in m.cols.items() if v.size and v.dtype.kind != 'c'), 'to_dict_of_list differs')
        elif op == 'repr':
            T.eq(t.to_simple_repr(), dict(m.cols), 'simple representation differs')
            s = repr(t)
            T.check(isinstance(s, str) and all(repr(k) in s for k in m.cols), 'printed form lacks a column')
        elif op == 'stack':
            one = {k: v for k, v in m.cols.items() if v.ndim == 1}
            if one:
                u = t.subcol(tuple(one))
                a, b = u.col_stacked(), u.row_stacked()
                dt = np.result_type(*one.values())
                T.check(a.dtype == dt and b.dtype == dt, 'dtype of the stacked columns', a=a.dtype, b=b.dtype, want=dt)
                T.check(not any(np.shares_memory(x, v) for x in (a, b) for v in u.values()), 'stacking shares memory with the table')
                T.check(a.shape == (m.n, len(one)) and b.shape == (len(one), m.n), 'stacked shape', a=a.shape, b=b.shape)
                for j, v in enumerate(one.values()):
                    T.check(same(a[:, j], v.astype(a.dtype)), 'column j of col_stacked is not column j', j=j)
                    T.check(same(b[j], v.astype(b.dtype)), 'row j of row_stacked is not column j', j=j)
            tail = [v.shape[1:] for v in m.cols.values()]
            if tail and all(x == tail[0] for x in tail) and len(tail[0]) == 1:
                a = t.col_stacked()
                T.check(same(a, np.concatenate([v.astype(a.dtype) for v in m.cols.values()], axis=1)), 'col_stacked 2-D')
                b = t.row_stacked()
                T.check(same(b, np.concatenate([v.astype(b.dtype) for v in m.cols.values()], axis=0)), 'row_stacked 2-D')
                T.ev('stack2d')
        elif op == 'clear' and chance(rng, .2):
            t.clear()
            m.cols.clear()
        for k, v, w in held:
            T.check(v.dtype == w.dtype and same(v, w), f'{op} changed an array handed out before', k=k, got=v, want=w)
        T.ev('op_' + op)
        ops.append((op, [(k, v.dtype.str, v.shape) for k, v in m.cols.items()]))
        if len(pool) > 6:
            pool.pop(int(rng.integers(len(pool))))
        for x in pool:
            compare(T, x)
        T.state('tables', [[(k, v.dtype.str, v.shape) for k, v in x.cols.items()] for x in pool])
    if ncopy and nrow:
        T.sig(ops)


def empty(rng, T):
    """Empty and key-less construction; independence of two empty tables."""
    a, b = DataTable(), DataTable({})
    a['x'] = [1, 2]
    T.check(len(b) == 0 and list(DataTable()) == [], 'empty tables share state')
    T.raises(AssertionError, lambda: DataTable([('a', [1])]), 'a non-mapping must be refused')
    T.check(len(b.concat(b)) == 0 and len(b.copy()) == 0, 'empty table')
    T.sig('empty')


MONITORS = [
    Monitor('history', history, 1200, 16000, shards=4,
            need={'op_subset': 50, 'op_concat': 50, 'written_through': 20, 'clone_pickle': 5, 'shared_on_request': 20}),
    Monitor('empty', empty, 1, 1),
]
