"""C03: HDF5 write-then-read."""
import contextlib, io, os, re
from pathlib import Path
import h5py
import numpy as np
from pyhipp.core import DataDict, DataTable
from pyhipp.io import h5
from pyhipp.io.h5.abc import GroupLike, from_h5_data
from pyhipp.io.h5.shortcuts import txt_to_h5
from ..core import Monitor, same
from ..gen import pick, chance, array, strided, H5_DTYPES, NAMES
from .. import h5ref as R

RULE = ('random nested trees (0-4 levels) of arrays of 17 dtypes, empty/0-d/strided arrays, scalars, text, bytes, byte-string '
        'and record arrays are written through a random entry point and read back through all reading entry points, with plain '
        'h5py as a second reader. Non-trivial: at least one dataset; identity is the tree of names, dtypes and shapes plus the entry points.')
ASSUMPTIONS = ['h5py/libhdf5 store what they are given']


def fpath(T, tag='f'):
    return f'{tag}_{T.case}.h5'


def write(rng, T, p, data):
    """Write data to a new file through one of the entry points."""
    how = pick(rng, ['dump_to', 'dump_to', 'dump_to_key', 'group_dump', 'managers', 'create_empty', 'datadict', 'x', 'w', 'nested_groups', 'one_by_one'])
    where = '/'
    if how == 'dump_to':
        h5.File.dump_to(pick(rng, [p, Path(p)]), data)
    elif how == 'datadict':
        def conv(t):
            return DataDict({k: conv(v) if isinstance(v, dict) else v for k, v in t.items()})
        h5.File.dump_to(p, conv(data), key=pick(rng, [None, '/', '']) or None, f_flag='x')
    elif how in 'xw':
        h5.File.dump_to(p, data, f_flag=how)
    elif how == 'dump_to_key':
        where = pick(rng, ['/g', 'g', 'g/h', '/g/h/i/'])
        h5.File.dump_to(p, data, key=where)
    elif how == 'group_dump':
        with h5.File(p, pick(rng, ['x', 'w', 'ac', 'ca'])) as f:
            f.dump(data)
    elif how == 'one_by_one':       # each piece of data under its own path
        h5.File.dump_to(p, {})
        for k in R.groups(data):
            h5.File.dump_to(p, {}, key=k, g_flag='ac')
        for k, v in R.leaves(data):
            h5.File.dump_to(p, v, key=pick(rng, ['', '/']) + k)
    elif how == 'nested_groups':
        f = h5.File(p, 'w')
        g = f.create_group('deep').create_group('er')
        where = 'deep/er'
        g.dump(data)
        f.close()
    else:
        def rec(g, t):
            for k, v in t.items():
                if isinstance(v, dict):
                    rec(g.create_group(k), v)
                elif how == 'create_empty' and isinstance(v, np.ndarray) and v.dtype.names is None:
                    ds = g.datasets.create_empty(k, shape=v.shape, dtype=v.dtype)
                    T.check(isinstance(ds, h5.Dataset) and ds.shape == v.shape and ds.dtype == v.dtype,
                            'create_empty returned another shape or dtype')
                    if v.size == 0:
                        pass
                    elif chance(rng, .5):
                        g.datasets[k] = v
                    else:
                        ds[...] = v
                else:
                    ds = g.datasets.create(k, v)
                    T.check(R.leaf_ok(ds[()], v), 'the created dataset does not hold the data')
        with h5.File(p, 'x') as f:
            rec(f, data)
    T.ev('write_' + how)
    return how, where


def roundtrip(rng, T):
    """Trees through every writer and every reader."""
    data = R.tree(rng)
    p = fpath(T)
    n0 = R.open_handles()
    how, where = write(rng, T, p, data)
    T.note(how=how, where=where, names=[k for k, _ in R.leaves(data)])
    T.check(R.open_handles() == n0, 'a written file was left open')

    def cmp(got, want, what):
        d = R.tree_diff(got, want)
        T.checks += 1
        if d:
            T.fail(f'{what}: {d}', how=how)
    cmp(R.read_tree(p, where), data, 'plain h5py reader')
    got = h5.File.load_from(pick(rng, [p, Path(p)]), *([] if where == '/' and chance(rng, .5) else [where]))
    T.check(isinstance(got, DataDict), 'load_from a group must give a DataDict')
    cmp(got, data, 'load_from')
    full = h5.File.load_from(p)
    cmp(full[where] if where.strip('/') else full, data, 'load_from of the whole file')
    for k, v in R.leaves(data):
        key = where.rstrip('/') + '/' + k
        T.check(R.leaf_ok(h5.File.load_from(p, key), v), 'load_from a dataset', key=key)
        T.check(R.leaf_ok(got[k], v), 'path lookup in the loaded mapping')
        T.ev('leaf_compared')
    for k in R.groups(data):
        sub = data
        for s in k.split('/'):
            sub = sub[s]
        cmp(h5.File.load_from(p, where.rstrip('/') + '/' + k), sub, 'load_from a subgroup')
    with h5.File(p) as f:
        g = f[where]
        T.check(isinstance(g, h5.Group), 'a group must open as a group')
        cmp(g.load(), data, 'Group.load')
        T.check(sorted(g.keys()) == sorted(data) and len(g) == len(data), 'group names', got=list(g.keys()))
        T.check(all(k in g for k in data) and 'no_such' not in g, 'membership')
        items, vals = list(g.items()), list(g.values())
        T.check([k for k, _ in items] == list(g.keys()) and len(vals) == len(items), 'items/values/keys disagree')
        for (k, o), o2 in zip(items, vals):
            isg = isinstance(data[k], dict)
            T.check(isinstance(o, h5.Group if isg else h5.Dataset) and type(o2) is type(o) and type(g[k]) is type(o),
                    'kind of item', k=k)
        ks = [k for k in data if chance(rng, .5)]
        tup = g[tuple(ks)]
        T.check(isinstance(tup, tuple) and len(tup) == len(ks), 'tuple access to items')
        for k, o in zip(ks, tup):
            if isinstance(data[k], dict):
                cmp(o.load(), data[k], 'tuple access')
            else:
                T.check(R.leaf_ok(o[()], data[k]), 'tuple access returned another item', k=k)
        # dataset manager
        ds = g.datasets
        names = [k for k, v in data.items() if not isinstance(v, dict)]
        T.check(sorted(ds.keys()) == sorted(names) and len(ds) == len(names), 'dataset names', got=list(ds.keys()), want=names)
        for k in data:
            T.check((k in ds) == (k in names), 'dataset membership', k=k)
        T.check('no_such' not in ds, 'membership of an absent dataset')
        for (k, v), v2 in zip(ds.items(), ds.values(), strict=True):
            T.check(R.leaf_ok(v, data[k]) and R.leaf_ok(v2, data[k]) and R.leaf_ok(ds[k], data[k]), 'dataset value', k=k)
            if k.isidentifier() and not hasattr(type(ds), k):
                T.check(R.leaf_ok(getattr(ds, k), data[k]), 'attribute access to a dataset', k=k)
            T.ev('dataset_read')
        got = ds[tuple(names)]
        T.check(isinstance(got, tuple) and all(R.leaf_ok(a, data[k]) for a, k in zip(got, names, strict=True)), 'tuple of datasets')
        cmp(ds.load(), {k: data[k] for k in names}, 'DatasetManager.load')
        sel = [k for k in names if chance(rng, .6)]
        cmp(ds.load(keys=sel), {k: data[k] for k in sel}, 'load(keys=)')
        pat = pick(rng, ['a', '[a-z]', 'S.*', '.*', 'Part', 'zzz'])
        cmp(ds.load(key_re=pat), {k: data[k] for k in names if re.match(pat, k)}, 'load(key_re=)')
        cmp(ds.load(key_re=pat, keys=sel), {k: data[k] for k in sel if re.match(pat, k)}, 'load(key_re=, keys=)')
        # any order, paths below the group, absent names
        order = [str(k) for k in rng.permutation(names)] if names else []
        T.check(list(ds.load(keys=order)) == order, 'load(keys=) keeps the order asked for', want=order)
        deep = [k for k, _ in R.leaves(data)]
        if deep:
            k = pick(rng, deep)
            one = ds.load(keys=pick(rng, [[k], (k,), iter([k])]))
            T.check(R.leaf_ok(next(iter(one.values())), dict(R.leaves(data))[k]), 'load(keys=) of a path', k=k)
        T.raises(KeyError, lambda: ds.load(keys=order + ['no_such']), 'load(keys=) of an absent name')
        T.ev('selected')
        T.check(all(k in repr(ds) or not k.isascii() for k in names), 'printed form of the manager')
        T.raises(KeyError, lambda: ds['no_such'], 'absent dataset')
        T.raises(AttributeError, lambda: ds.no_such, 'absent dataset attribute')
        for k in data:
            if isinstance(data[k], dict):
                T.raises(KeyError, lambda: ds[k], 'a group is not a dataset')
        # partial reads
        for k in names:
            v = data[k]
            if isinstance(v, np.ndarray) and v.ndim and v.dtype.names is None:
                o = g[k]
                T.check(o.shape == v.shape and o.dtype == v.dtype and o.ndim == v.ndim, 'shape/dtype/ndim of a dataset')
                a, b = sorted(int(x) for x in rng.integers(0, len(v) + 1, 2))
                T.eq(o[a:b], v[a:b], 'sliced read', a=a, b=b)
                if len(v):
                    i = int(rng.integers(len(v)))
                    T.eq(o[i], v[i], 'indexed read')
    T.check(R.open_handles() == n0, 'a read file was left open')
    os.unlink(p)
    T.sig(how, where, [(k, np.asarray(v).dtype.str, np.shape(v)) for k, v in R.leaves(data)]) if any(True for _ in R.leaves(data)) else None
    T.state('tree', sorted(k for k, _ in R.leaves(data)))


def attributes(rng, T):
    """Attribute managers on files, groups and datasets."""
    p = fpath(T, 'a')
    ref = {}
    with h5.File(p, 'w') as f:
        f.dump({'g': {'d': np.arange(3)}, 's': 1.5})
        for where in ['/', 'g', 'g/d', 's']:
            if not chance(rng, .8):
                continue
            o = f[where]
            d = {}
            for k in rng.permutation(NAMES + ['load', 'items', 'create'])[:rng.integers(0, 5)]:
                v = R.leaf(rng)
                if isinstance(v, np.ndarray) and (v.size == 0 and v.ndim > 1 or v.dtype.names):
                    v = np.arange(2)
                d[str(k)] = v
            if chance(rng, .5):
                o.attrs.dump(d)
            else:
                for k, v in d.items():
                    if isinstance(v, np.ndarray) and v.dtype.kind in 'fiu' and v.size and chance(rng, .5):
                        o.attrs.create_empty(k, v.shape, v.dtype)
                        o.attrs[k] = v
                    else:
                        o.attrs.create(k, v)
            ref[where] = d

    def ok(got, v):
        if isinstance(v, str):
            return isinstance(got, str) and got == v
        if isinstance(v, bytes):
            return got in (v, v.decode())      # HDF5 attributes do not tell them apart
        return R.leaf_ok(got, v)
    with h5py.File(p, 'r') as f:
        for where, d in ref.items():
            T.check(sorted(f[where].attrs) == sorted(d), 'attribute names (plain reader)')
            for k, v in d.items():
                T.check(ok(f[where].attrs[k], v), 'attribute value (plain reader)', k=k, v=v)
    with h5.File(p) as f:
        for where, d in ref.items():
            a = f[where].attrs
            T.check(sorted(a.keys()) == sorted(d) and len(a) == len(d), 'attribute names', got=list(a.keys()))
            for (k, v), v2 in zip(a.items(), a.values(), strict=True):
                T.check(ok(v, d[k]) and ok(v2, d[k]) and ok(a[k], d[k]) and k in a, 'attribute value', k=k, got=v, want=d[k])
                if k.isidentifier() and not hasattr(type(a), k):
                    T.check(ok(getattr(a, k), d[k]), 'attribute access by name')
                T.ev('attr_read')
            names = list(d)
            T.check(all(ok(x, d[k]) for x, k in zip(a[tuple(names)], names, strict=True)), 'tuple of attributes')
            got = a.load()
            T.check(isinstance(got, DataDict) and sorted(got) == sorted(d) and all(ok(got[k], d[k]) for k in d if '/' not in k), 'attrs.load')
            sel = [k for k in names if chance(rng, .5)]
            got = a.load(keys=sel)
            T.check(list(got) == sel and all(ok(got[k], d[k]) for k in sel), 'attrs.load(keys=)')
            got = a.load(key_re='[a-m]')
            T.check(sorted(got) == sorted(k for k in names if re.match('[a-m]', k)), 'attrs.load(key_re=)')
            T.check('no_such' not in a, 'absent attribute')
            T.raises(KeyError, lambda: a['no_such'], 'absent attribute')
            T.raises(AttributeError, lambda: a.no_such, 'absent attribute')
            T.check(all(repr(k) in repr(a) for k in d), 'printed form of the attributes')
            w = a.what()
            T.check((w == '') == (len(d) == 0) and all(f'{k}=' in w for k in d), 'attrs.what lists every attribute', got=w)
    os.unlink(p)
    if ref:
        T.sig({k: {a: (np.asarray(v).dtype.str, np.shape(v)) for a, v in d.items()} for k, d in ref.items()})


def listing(rng, T):
    """what()/ls() show exactly the stored names, dtypes and shapes."""
    data = R.tree(rng)
    p = fpath(T, 'l')
    h5.File.dump_to(p, data)
    with h5.File(p, 'a') as f:
        f.attrs.create('atop', 3)
        for k, v in R.leaves(data):
            f[k].attrs.create('aleaf', 'v')
        for k in R.groups(data):
            f[k].attrs.create('agroup', 1.5)
    d = R.tree_diff(h5.File.load_from(p), data)
    T.check(d is None, 'attributes changed what is loaded', diff=d)
    for k in R.groups(data):                # groups, also empty ones, load without their attributes
        sub = data
        for s in k.split('/'):
            sub = sub[s]
        d = R.tree_diff(h5.File.load_from(p, pick(rng, ['', '/']) + k), sub)
        T.check(d is None, 'attributes changed what a group loads', diff=d)

    def count(t, depth, dset, group, maxd):
        n = 0
        if depth == maxd:
            return 0
        for v in t.values():
            if isinstance(v, dict):
                n += (1 + count(v, depth + 1, dset, group, maxd)) if group else 0
            else:
                n += bool(dset)
        return n
    with h5.File(p) as f:
        for dset in (True, False):
            for group in (True, False):
                for attr in (True, False):
                    maxd = pick(rng, [16, 2, 3])
                    s = f.what(attr=attr, dset=dset, group=group, max_depth=maxd)
                    lines = [ln for ln in s.split('\n') if '─' in ln]
                    T.eq(len(lines), count(data, 1, dset, group, maxd), 'number of listed items', s=s, dset=dset, group=group, maxd=maxd)
                    if attr:
                        T.check('atop=3' in s.split('\n')[0], 'attributes missing from listing')
                    else:
                        T.check('aleaf' not in s and 'atop' not in s, 'attributes shown though disabled')
                    T.ev('listing')
        def shape_of(t, depth, dset, group, maxd):      # (depth, name, is a group, is the last shown) of every line
            ks = [k for k in t if depth < maxd and (group if isinstance(t[k], h5py.Group) else dset)]
            for k in ks:
                yield depth, k, isinstance(t[k], h5py.Group)
                if isinstance(t[k], h5py.Group):
                    yield from shape_of(t[k], depth + 1, dset, group, maxd)
        for dset, group, maxd in ((True, True, 16), (bool(rng.integers(2)), bool(rng.integers(2)), int(rng.integers(1, 5)))):
            ln = [x for x in f.what(dset=dset, group=group, max_depth=maxd).split('\n') if re.match(r' *[├└]─ ', x)]
            with h5py.File(p, 'r') as raw:
                want = list(shape_of(raw, 1, dset, group, maxd))
            got = [((len(x) - len(x.lstrip(' '))) // 3 + 1, x.lstrip(' ')[3:]) for x in ln]
            T.eq([d for d, _ in got], [d for d, _, _ in want], 'depth of the listed items')
            for (d, x), (_, k, grp) in zip(got, want):
                T.check(x.startswith(k + ('/' if grp else '(')), 'listed item', line=x, name=k)
            for i, x in enumerate(ln if dset and group else ()):        # the closing mark is that of the last item of its group
                later = [d for d, _ in got[i + 1:]]
                nxt = next((d for d in later if d <= got[i][0]), None)
                T.eq(x.lstrip(' ')[0], '├' if nxt == got[i][0] else '└', 'branch mark', listing=ln)
            T.ev('listed_tree', len(ln))
        for k, v in data.items():
            w = f[k].what()
            if isinstance(v, dict):
                T.check(w.startswith('/'), 'group line')
                continue
            e = np.asarray(R.expected(v))
            ln = [x for x in f.what().split('\n') if x.startswith(('├─ ' + k + '(', '└─ ' + k + '('))]
            T.check(len(ln) == 1, 'each dataset is listed once', k=k)
            if e.ndim:
                T.check(str(e.shape) in w, 'listing lacks the shape', w=w)
            else:
                T.check('()' not in w and ', (' not in f[k].what(attr=False), 'a scalar is listed with a shape', w=w)
            if not isinstance(R.expected(v), bytes):
                T.check(str(e.dtype) in w.replace('\n', ' ') , 'listing lacks the dtype', w=w)
            T.check('aleaf=v' in w and 'aleaf' not in f[k].what(attr=False), 'attributes of a dataset line')
        b = io.StringIO()
        f.ls(file=b)
        T.eq(b.getvalue(), f.what() + '\n', 'ls must print what()')
        b = io.StringIO()
        with contextlib.redirect_stdout(b):
            f.ls(dset=False)
            h5.File.ls_from(p, attr=False, max_depth=2)
        T.eq(b.getvalue(), f.what(dset=False) + '\n' + f.what(attr=False, max_depth=2) + '\n', 'ls prints on standard output what was asked for')
        b = io.StringIO()
        h5.File.ls_from(p, file=b)
        T.eq(b.getvalue(), f.what() + '\n', 'ls_from must print the same listing')
        T.check(f.datasets.what().count(',') == max(len(f.datasets) - 1, 0), 'datasets.what')
        b = io.StringIO()
        f.datasets.ls(file=b)
        f.attrs.ls(file=b)
        T.check('atop=3' in b.getvalue(), 'attrs.ls')
    os.unlink(p)
    T.sig(sorted((k, np.shape(v)) for k, v in R.leaves(data)))


class Inner(GroupLike):
    h5_data_typedict = {'x': np.ndarray, 'name': str}

    def __init__(self, x, name):
        self.x, self.name = x, name


class Outer(GroupLike):
    h5_data_typedict = {'inner': Inner, 'tab': DataTable, 'n': int, 'label': str}

    def __init__(self, inner, tab, n, label, extra=0):
        self.inner, self.tab, self.n, self.label, self.extra = inner, tab, n, label, extra


def objects(rng, T):
    """User classes and tables stored as groups; text conversion."""
    p = fpath(T, 'o')
    n = int(rng.integers(0, 6))
    cols = {str(k): array(rng, (n,), pick(rng, H5_DTYPES)) for k in rng.permutation(NAMES)[:3]}
    o = Outer(Inner(array(rng, (n, 2), 'f8'), pick(rng, R.STRS)), DataTable(cols), int(rng.integers(1000)), pick(rng, R.STRS))
    way = int(rng.integers(3))
    if way == 0:
        o.to_h5_file(p)
        u = Outer.from_h5_file(p)
    elif way == 1:
        with h5.File(p, 'w') as f:
            o.to_h5_group(f.create_group('q').create_group('r'))
        u = Outer.from_h5_file(p, group='q/r', extra=5)
        T.check(u.extra == 5, 'constructor keyword not honoured')
    else:
        with h5.File(p, 'w') as f:
            f.create_group('q')
        o.to_h5_file(p, group='q', f_flag='a')
        with h5.File(p) as f:
            u = Outer.from_h5_group(f['q'])
    T.check(type(u) is Outer and type(u.inner) is Inner and type(u.tab) is DataTable, 'types of restored objects')
    T.check(same(u.inner.x, o.inner.x) and u.inner.name == o.inner.name and u.label == o.label and u.n == o.n,
            'restored attributes', way=way)
    T.check(sorted(u.tab) == sorted(cols) and all(same(u.tab[k], v) and u.tab[k].dtype == v.dtype for k, v in cols.items()),
            'restored table')
    # members of the stored object replaced by what the caller gives
    with h5.File(p) as f:
        g = f[{0: '/', 1: 'q/r', 2: 'q'}[way]]
        give = {k: v for k, v in (('n', -3), ('label', 'other'), ('extra', 9), ('inner', Inner(np.zeros(1), 'i'))) if chance(rng, .4)}
        u = Outer.from_h5_group(g, **give)
        T.check(u.n == give.get('n', o.n) and u.label == give.get('label', o.label) and u.extra == give.get('extra', 0) and u.inner.name == give.get('inner', o.inner).name
                and sorted(u.tab) == sorted(cols), 'a restored object with members given by the caller', give=give)
        t = from_h5_data(g['tab'].load(), DataTable, pick(rng, [{}, {'copy': True}, {'copy': False}]))
        T.check(sorted(t) == sorted(cols) and all(same(t[k], v) for k, v in cols.items()), 'a table restored by itself')
    T.ev('object')
    # text table
    m = int(rng.integers(1, 6))
    dt = np.dtype([('id', 'i8'), ('x', 'f8'), ('y', 'f4')])
    rec = np.zeros(m, dt)
    rec['id'], rec['x'], rec['y'] = rng.integers(-99, 99, m), rng.normal(size=m), rng.integers(-9, 9, m)
    with open(p + '.txt', 'w') as f:
        f.write('# header\n' + ''.join(f'{r["id"]} {float(r["x"])!r} {float(r["y"])!r}\n' for r in rec))
    q = p + '.tab'
    if chance(rng, .5):
        txt_to_h5(p + '.txt', pick(rng, [q, Path(q)]), dt)
    else:
        with h5.File(q, 'w') as f:
            g = f.create_group('t')
            txt_to_h5(p + '.txt', g, dt)
            T.check(sorted(g.keys()) == ['id', 'x', 'y'], 'text conversion into a group')
            cmpg = g.load()
            for k in dt.names:
                T.eq(cmpg[k].reshape(-1), rec[k], 'text column')
        h5.File.dump_to(q, {k: rec[k] for k in dt.names})
    got = h5.File.load_from(q)
    for k in dt.names:
        T.check(got[k].dtype == dt[k] and same(got[k].reshape(-1), rec[k]), 'text column', k=k)
    # once more: the default makes the file anew, 'x' refuses it, 'a' extends it, existing columns by the flag given
    way2 = int(rng.integers(4))
    rec2 = {k: rec[k] + 1 for k in dt.names}
    with open(p + '.txt', 'w') as f:
        f.write(''.join(f'{rec2["id"][i]} {float(rec2["x"][i])!r} {float(rec2["y"][i])!r}\n' for i in range(m)))
    with h5py.File(q, 'a') as f:
        f['keep'] = 7
    if way2 == 0:
        txt_to_h5(p + '.txt', q, dt)
        want = rec2
    elif way2 == 1:
        T.raises(OSError, lambda: txt_to_h5(p + '.txt', q, dt, f_flag='x'), 'the text conversion must not replace an existing file opened exclusively')
        want = {k: rec[k] for k in dt.names} | {'keep': np.asarray(7)}
    elif way2 == 2:
        T.raises(ValueError, lambda: txt_to_h5(p + '.txt', q, dt, d_flag='x', f_flag='a'), 'existing columns must be refused')
        want = {k: rec[k] for k in dt.names} | {'keep': np.asarray(7)}
    else:
        txt_to_h5(p + '.txt', q, dt, d_flag='ac', f_flag='a')
        want = rec2 | {'keep': np.asarray(7)}
    got = R.read_tree(q)
    got.pop('t', None)
    T.check(sorted(got) == sorted(want) and all(same(np.reshape(got[k], -1), np.reshape(want[k], -1)) for k in want), 'text conversion into an existing file', way=way2, got=got, want=want)
    T.ev('text_table')
    for x in (p, q, p + '.txt'):
        os.unlink(x)
    T.sig(way, [(k, v.dtype.str, v.shape) for k, v in cols.items()], m)


def keylist(rng, T):
    """Sequences of names."""
    from pyhipp.io.h5.utils import KeyList
    ks = [str(x) for x in rng.permutation(NAMES)[:rng.integers(0, 7)]]
    kl = KeyList(iter(ks))
    T.check(list(kl) == ks and len(kl) == len(ks) and list(reversed(kl)) == ks[::-1]
            and all(k in kl and kl[i] == k for i, k in enumerate(ks)) and 'no_such' not in kl, 'name list')
    pat = pick(rng, [None, 'a', '.*[0-9]', 'po', '[^a]', '.', 'os'])
    T.eq(list(kl.matched(pat)), ks if pat is None else [k for k in ks if re.match(pat, k)], 'matched names')
    T.eq(eval(repr(kl)), tuple(ks), 'printed form')
    T.sig(ks, pat)


MONITORS = [
    Monitor('roundtrip', roundtrip, 600, 10000, shards=3, need={'leaf_compared': 300}),
    Monitor('attributes', attributes, 300, 3000, need={'attr_read': 100}),
    Monitor('listing', listing, 150, 1500, need={'listing': 100}),
    Monitor('objects', objects, 150, 1500, need={'object': 20, 'text_table': 20}),
    Monitor('keylist', keylist, 50, 500),
]
