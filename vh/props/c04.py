"""C04: HDF5 flags."""
import hashlib, os
import h5py
import numpy as np
from pyhipp.io import h5
from ..core import Monitor, same
from ..gen import pick, chance
from pyhipp.io.h5.abc import GroupLike
from .. import h5ref as R

RULE = ('histories of 8-40 requests (open/create/write/read/delete with every documented flag, legal and conflicting) on a small name '
        'space, mirrored by a dictionary model; after each request the file is read back with plain h5py. Non-trivial: at least one '
        'accepted overwrite and one refused request; identity is the sequence of (request, flag, outcome).')
NAMES = ['a', 'b', 'c', 'd']
SHAPES = [((), 'f8'), ((3,), 'i4'), ((2, 2), 'f4'), ((0,), 'f8')]
REFUSE = (ValueError, KeyError, TypeError, OSError, RuntimeError)


def value(rng, sd=None):
    sh, dt = sd or pick(rng, SHAPES)
    return rng.integers(-100, 100, size=sh).astype(dt)


def plain(p):
    t = R.read_tree(p)
    a = {k: {x: np.asarray(y) for x, y in v.items()} for k, v in R.read_attrs(p).items()}
    return t, a


def eq_tree(got, want):
    if isinstance(want, dict):
        return isinstance(got, dict) and sorted(got) == sorted(want) and all(eq_tree(got[k], want[k]) for k in want)
    g, w = np.asarray(got), np.asarray(want)
    return not isinstance(got, dict) and g.dtype == w.dtype and g.shape == w.shape and same(g, w)


def digest(p):
    with open(p, 'rb') as f:
        return hashlib.md5(f.read()).hexdigest()


def at(t, path):
    for s in path:
        t = t[s]
    return t


def paths(t, pre=()):
    yield pre
    for k, v in t.items():
        if isinstance(v, dict):
            yield from paths(v, pre + (k,))


def overlay_ok(before, after, req):
    """After a refused multi-item write: everything not named is unchanged,
    named items hold the old or the new value, nothing else appeared."""
    for k in before:
        if k not in after:
            return False
        if k not in req:
            if not eq_tree(after[k], before[k]):
                return False
        elif isinstance(before[k], dict):
            if not isinstance(after[k], dict) or not overlay_ok(before[k], after[k], req[k] if isinstance(req[k], dict) else {}):
                return False
        elif not (eq_tree(after[k], before[k]) or eq_tree(after[k], req[k])):
            return False
    for k in after:
        if k not in before:
            if k not in req:
                return False
            if isinstance(req[k], dict):
                if not overlay_ok({}, after[k], req[k]):
                    return False
            elif not eq_tree(after[k], req[k]):
                return False
    return True


def items(rng, T):
    """Histories of requests on the items of one file."""
    p = f'i{T.case}.h5'
    h5.File(p, 'x').close()
    tree, attrs = {}, {'/': {}}
    ops, over, refused = [], 0, 0
    for _ in range(int(rng.integers(8, 40))):
        op = pick(rng, ['group', 'group', 'dset', 'dset', 'dset', 'empty', 'attr', 'attr', 'attr_empty', 'dump', 'dump', 'del', 'set', 'attrset',
                        'dumpto', 'dumpto', 'readonly', 'wrongkind', 'badflag', 'link', 'managerdump', 'objdump', 'attrsdump', 'dumpone', 'dumpone'])
        flag = pick(rng, ['x', 'x', 'ac', 'ca'])
        fkw = {} if flag == 'x' and chance(rng, .5) else {'flag': flag}     # exclusive unless said
        gp = pick(rng, list(paths(tree)))
        node = at(tree, gp)
        where = '/' + '/'.join(gp)
        k = pick(rng, NAMES)
        full = where.rstrip('/') + '/' + k
        T.note(op=op, flag=flag, where=full)
        ok = True
        req = None

        def attempt(fn, allowed, what):
            """Run fn on the open group; it must succeed iff allowed."""
            with h5.File(p, 'a') as f:
                g = f[where]
                if allowed:
                    return fn(g)
                T.raises(REFUSE, lambda: fn(g), f'{what} must be refused', flag=flag, where=full)
        if op == 'group':
            ok = k not in node or (flag != 'x' and isinstance(node[k], dict))

            def fn(g):
                r = g.create_group(k, flag=flag) if flag != 'x' or chance(rng, .5) else g.create_group(k)
                T.check(isinstance(r, h5.Group) and sorted(r.keys()) == sorted(node.get(k, {})), 'create_group returned another group')
            attempt(fn, ok, 'create_group')
            if ok and k not in node:
                node[k] = {}
                attrs[full] = {}
            elif ok:
                over += 1
        elif op == 'dset':
            cur = node.get(k)
            same_shape = isinstance(cur, np.ndarray) and chance(rng, .8)
            v = value(rng, (cur.shape, pick(rng, [cur.dtype, cur.dtype, 'f8', 'i4', 'f4', 'i8'])) if same_shape else None)
            if isinstance(cur, np.ndarray) and flag != 'x' and cur.shape != v.shape:
                continue                        # outcome of a reshaping overwrite is not specified
            recast = isinstance(cur, np.ndarray) and flag != 'x' and cur.dtype != v.dtype
            ok = k not in node or (flag != 'x' and isinstance(cur, np.ndarray))

            def fn(g):
                r = g.datasets.create(k, v, flag=flag) if flag != 'x' or chance(rng, .5) else g.datasets.create(k, v)
                T.check(isinstance(r, h5.Dataset) and same(np.asarray(r[()]), v), 'create returned another dataset')
            attempt(fn, ok, 'dataset creation')
            if ok:
                over += k in node
                if k not in node:
                    attrs[full] = {}
                if recast:
                    # every value fits every dtype here; which dtype is kept is not specified
                    v = np.asarray(at(plain(p)[0], gp)[k])
                    T.ev('recast')
                node[k] = v
        elif op == 'empty':
            sh, dt = pick(rng, SHAPES)
            cur = node.get(k)
            ok = k not in node or (flag != 'x' and isinstance(cur, np.ndarray))

            def fn(g):
                r = g.datasets.create_empty(k, sh, dt, **fkw)
                if cur is not None:
                    T.check(isinstance(r, h5.Dataset) and same(np.asarray(r[()]), cur), 'create-or-access must return the existing dataset')
            attempt(fn, ok, 'empty dataset creation')
            if ok and cur is None:
                node[k] = np.zeros(sh, dt)
                attrs[full] = {}
                t2, _ = plain(p)
                got = at(t2, gp)[k]
                T.check(np.shape(got) == sh and np.asarray(got).dtype == dt, 'shape/dtype of an empty dataset')
        elif op in ('attr', 'attr_empty', 'attrset'):
            w = pick(rng, list(attrs))
            d = attrs[w]
            cur = d.get(k)
            v = value(rng, (cur.shape, cur.dtype) if cur is not None else pick(rng, SHAPES[:3]))
            with h5.File(p, 'a') as f:
                a = f[w].attrs
                if op == 'attrset':
                    ok = cur is not None
                    if ok:
                        a[k] = v
                    else:
                        T.raises(KeyError, lambda: a.__setitem__(k, v), 'assigning an absent attribute must be refused')
                elif op == 'attr':
                    ok = cur is None or flag != 'x'
                    fn = lambda: a.create(k, v, **fkw)
                    fn() if ok else T.raises(ValueError, fn, 'creating an existing attribute exclusively must fail')
                else:
                    ok = cur is None or flag != 'x'
                    fn = lambda: a.create_empty(k, v.shape, v.dtype, **fkw)
                    fn() if ok else T.raises(ValueError, fn, 'creating an existing attribute exclusively must fail')
                    if ok and cur is None:
                        got = np.asarray(a[k])
                        T.check(got.shape == v.shape and got.dtype == v.dtype, 'shape/dtype of an empty attribute')
                        a[k] = v
                    else:
                        v = cur
            if ok:
                over += cur is not None
                d[k] = v
        elif op == 'dumpone':       # one piece of data under a path
            base = gp + tuple(str(x) for x in rng.permutation(NAMES)[:int(rng.integers(1, 3))])
            key = pick(rng, ['/', '']) + '/'.join(base) + pick(rng, ['', '/'])
            cparent = chance(rng, .6)
            t = tree
            for s in base[:-1]:
                if s not in t:
                    ok &= cparent
                    t = {}
                elif isinstance(t[s], dict):
                    t = t[s]
                else:
                    ok, t = False, {}
            cur = t.get(base[-1])
            v = value(rng, (cur.shape, cur.dtype) if isinstance(cur, np.ndarray) else None)
            ok &= cur is None or flag != 'x' and isinstance(cur, np.ndarray)
            kw = {} if flag == 'x' and chance(rng, .5) else {'dump_flag': flag}
            if not cparent or chance(rng, .5):
                kw['create_parent'] = cparent
            fn = lambda: h5.File.dump_to(p, v, key=key, g_flag=pick(rng, ['x', 'ac']), f_flag=pick(rng, ['a', 'ac', 'ca']), **kw)
            fn() if ok else T.raises(REFUSE, fn, 'conflicting dump of a dataset must be refused', key=key)
            T.ev('one dataset')
            req = v
            for s in reversed(base):
                req = {s: req}
            t2, a2 = plain(p)
            if ok:
                T.check(eq_tree(t2, R.merge(tree, req)), 'file after an accepted dump of a dataset', got=t2, before=tree, req=req)
                over += cur is not None
            else:
                T.check(overlay_ok(tree, t2, req), 'a refused dump changed something it did not name', got=t2, before=tree, req=req)
            T.check(all(w in a2 and sorted(a2[w]) == sorted(d) for w, d in attrs.items()), 'attributes lost by a dump')
            tree, attrs = _arr(t2), a2
        elif op == 'attrsdump':
            w = pick(rng, list(attrs))
            d = attrs[w]
            new = {}
            for n in rng.permutation(NAMES)[:int(rng.integers(1, 4))]:
                cur = d.get(str(n))
                new[str(n)] = value(rng, (cur.shape, cur.dtype) if cur is not None else pick(rng, SHAPES[:3]))
            ok = flag != 'x' or not any(n in d for n in new)
            with h5.File(p, 'a') as f:
                fn = lambda: f[w].attrs.dump(new, flag=flag) if flag != 'x' or chance(rng, .5) else f[w].attrs.dump(new)
                fn() if ok else T.raises(ValueError, fn, 'dumping existing attributes exclusively must fail')
            if ok:
                over += any(n in d for n in new)
                attrs[w] = d | new
            else:
                a2 = plain(p)[1]
                T.check(overlay_ok(d, a2[w], new), 'a refused dump of attributes changed others')
                attrs[w] = a2[w]
        elif op in ('dump', 'dumpto', 'managerdump', 'objdump'):
            req = {}
            for n in rng.permutation(NAMES)[:int(rng.integers(1, 4))]:
                n = str(n)
                cur = node.get(n)
                if isinstance(cur, np.ndarray) and chance(rng, .8):
                    req[n] = value(rng, (cur.shape, cur.dtype))
                elif op not in ('managerdump', 'objdump') and chance(rng, .35):
                    sub = cur if isinstance(cur, dict) else {}
                    req[n] = {}
                    for m in rng.permutation(NAMES)[:2]:
                        m = str(m)
                        c2 = sub.get(m)
                        req[n][m] = value(rng, (c2.shape, c2.dtype) if isinstance(c2, np.ndarray) else None)
                else:
                    req[n] = value(rng)
            target, gflag, cparent, key, missing = node, None, None, None, False
            base = gp
            if op == 'dumpto':
                gflag = pick(rng, ['x', 'ac', 'ca'])
                extra = [str(x) for x in rng.permutation(NAMES)[:int(rng.integers(0, 3))]]
                base = gp + tuple(extra)
                key = pick(rng, ['/', '']) + '/'.join(base) + pick(rng, ['', '/'])
                cparent = chance(rng, .6)
                T.note(op=op, flag=flag, gflag=gflag, key=key, create_parent=cparent, req={a: list(b) if isinstance(b, dict) else b for a, b in req.items()})
            clash = [False]

            def conflict(t, r, fl):
                for n, v in r.items():
                    cur = t.get(n)
                    if cur is None:
                        continue
                    if fl == 'x' or isinstance(cur, dict) != isinstance(v, dict):
                        return True
                    if isinstance(v, dict):
                        inner = conflict(cur, v, fl)
                        if inner is not False:
                            return inner
                    elif cur.shape != v.shape or cur.dtype != v.dtype:
                        return None          # unspecified reshape
                return False
            ok = True
            newreq = req
            if op == 'dumpto' and base:
                t, seg = tree, list(base)
                for i, s in enumerate(seg[:-1]):
                    if s not in t:
                        if not cparent:
                            ok = False
                        t = {}
                    elif not isinstance(t[s], dict):
                        ok = False
                        t = {}
                    else:
                        t = t[s]
                if ok:
                    if seg[-1] in t:
                        ok = gflag != 'x' and isinstance(t[seg[-1]], dict)
                        target = t[seg[-1]] if ok else {}
                    else:
                        target = {}
            if ok:
                c = conflict(target, req, flag)
                if c is None:
                    continue
                ok = not c
            if op == 'dumpto':
                fn = lambda: h5.File.dump_to(p, req, **({'key': key} if base or chance(rng, .5) else {}), **({} if gflag == 'x' and chance(rng, .5) else {'g_flag': gflag}),
                                             **({'dump_flag': fkw['flag']} if fkw else {}), **({} if cparent and chance(rng, .5) else {'create_parent': cparent}),
                                             **pick(rng, [{'f_flag': 'a'}, {'f_flag': 'ac'}, {'f_flag': 'ca'}, {}]))
                fn() if ok else T.raises(REFUSE, fn, 'conflicting dump must be refused', req=list(req), key=key)
            elif op == 'managerdump':
                attempt(lambda g: g.datasets.dump(req, **fkw), ok, 'conflicting dump')
            elif op == 'objdump':
                o = type('O', (GroupLike,), {'h5_data_typedict': {n: np.ndarray for n in req}})()
                for n, v in req.items():
                    setattr(o, n, v)
                if chance(rng, .5):
                    attempt(lambda g: o.to_h5_group(g, **fkw), ok, 'conflicting dump')
                else:
                    fn = lambda: o.to_h5_file(p, where, f_flag=pick(rng, ['a', 'ac', 'ca']), **fkw)
                    fn() if ok else T.raises(REFUSE, fn, 'conflicting dump must be refused', req=list(req))
            else:
                attempt(lambda g: g.dump(req, **fkw), ok, 'conflicting dump')
            full_req = req
            if op == 'dumpto':
                for s in reversed(base):
                    full_req = {s: full_req}
            else:
                for s in reversed(gp):
                    full_req = {s: full_req}
            t2, a2 = plain(p)
            if ok:
                T.check(eq_tree(t2, R.merge(tree, full_req)), 'file after an accepted dump is not the overlay of old and new',
                        got=t2, before=tree, req=full_req)
                over += any(n in target for n in req)
            else:
                T.check(overlay_ok(tree, t2, full_req), 'a refused dump changed something it did not name',
                        got=t2, before=tree, req=full_req)
            old = attrs
            tree = t2
            tree = _arr(tree)
            T.check(all(w in a2 and sorted(a2[w]) == sorted(d) for w, d in old.items()), 'attributes lost by a dump')
            attrs = a2
        elif op == 'del':
            ok = k in node
            attempt(lambda g: g.__delitem__(k), ok, 'deleting an absent item')
            if ok:
                del node[k]
                attrs = {w: d for w, d in attrs.items() if w != full and not w.startswith(full + '/')}
        elif op == 'set':
            cur = node.get(k)
            ok = isinstance(cur, np.ndarray)
            v = value(rng, (cur.shape, cur.dtype) if ok else None)
            if ok and v.size == 0:
                continue
            attempt(lambda g: g.datasets.__setitem__(k, v), ok, 'assigning an absent dataset')
            if ok:
                node[k] = v
                over += 1
        elif op == 'readonly':
            d0 = digest(p)
            with h5.File(p) as f:
                g = f[where]
                fns = [lambda: g.create_group('zz'), lambda: g.datasets.create('zz', 1), lambda: g.attrs.create('zz', 1)]
                for n, v in node.items():
                    if isinstance(v, np.ndarray) and v.size:
                        fns.append(lambda n=n, v=v: g.datasets.__setitem__(n, v + 1))
                    fns.append(lambda n=n: g.__delitem__(n))
                for fn in fns:
                    T.raises(Exception, fn, 'a write through a read-only file must fail')
            T.check(digest(p) == d0, 'a read-only open changed the file')
            h5.File.load_from(p)
            T.check(digest(p) == d0, 'loading changed the file')
            refused += 1
        elif op == 'wrongkind':
            with h5.File(p, 'a') as f:
                g = f[where]
                for n, v in node.items():
                    T.check((n in g) and (n in g.datasets) == isinstance(v, np.ndarray), 'membership')
                    if isinstance(v, dict):
                        T.raises(KeyError, lambda: g.datasets[n], 'reading a group as a dataset must be refused')
                        T.raises(ValueError, lambda: g.datasets.create(n, 1, flag='ac'), 'overwriting a group by a dataset must be refused')
                        T.raises(ValueError, lambda: g.datasets.create_empty(n, (2,), 'f8', flag=pick(rng, ['ac', 'ca'])), 'opening a group as a dataset must be refused')
                    else:
                        T.raises(ValueError, lambda: g.create_group(n, flag='ac'), 'opening a dataset as a group must be refused')
                T.raises(KeyError, lambda: g['nope'], 'absent item must raise KeyError')
                T.raises(KeyError, lambda: g.datasets['nope'], 'absent dataset must raise KeyError')
            refused += 1
        elif op == 'badflag':
            with h5.File(p, 'a') as f:
                g = f[where]
                fl = pick(rng, ['w', 'X', '', 'r', None, 'cx'])
                for fn in [lambda: g.create_group('q', flag=fl), lambda: g.datasets.create('q', 1, flag=fl),
                           lambda: g.datasets.create_empty('q', (), 'f8', flag=fl), lambda: g.attrs.create('q', 1, flag=fl),
                           lambda: g.attrs.create_empty('q', (), 'f8', flag=fl), lambda: g.create_soft_link('q', '/', flag=fl),
                           lambda: g.create_external_link('q', 'f', flag=fl)]:
                    T.raises(ValueError, fn, 'an unknown flag must be refused', fl=fl)
        elif op == 'link' and node:
            # a soft link to an existing dataset, removed again
            src = [n for n, v in node.items() if isinstance(v, np.ndarray)]
            if src:
                with h5.File(p, 'a') as f:
                    g = f[where]
                    g.create_soft_link('lnk', where.rstrip('/') + '/' + src[0])
                    T.check(same(np.asarray(g.datasets['lnk']), node[src[0]]), 'soft link does not resolve to its target')
                    T.raises(ValueError, lambda: g.create_soft_link('lnk', '/'), 'exclusive link over an existing name must fail')
                    g.create_soft_link('lnk', '/', flag='ac')
                    T.check(same(np.asarray(g.datasets['lnk']), node[src[0]]), 'create-or-access replaced an existing link')
                    T.raises(ValueError, lambda: g.create_external_link('lnk', p), 'exclusive link over an existing name must fail')
                    del g['lnk']
                    T.check(same(np.asarray(g.datasets[src[0]]), node[src[0]]), 'removing a link removed its target')
                    T.ev('soft_link')
                e = f'e{T.case}.h5'
                with h5.File(e, 'w') as f:
                    f.create_external_link('x', p, where)
                    f.create_external_link('x', p, '/', flag='ca')
                with h5.File(e) as f:
                    T.check(same(np.asarray(f['x'].datasets[src[0]]), node[src[0]]), 'external link does not resolve to its target')
                os.unlink(e)
        refused += not ok
        T.ev('accepted' if ok else 'refused')
        T.ev('op_' + op)
        ops.append((op, flag, ok))
        t2, a2 = plain(p)
        T.check(eq_tree(t2, tree), f'file content differs from the history after {op}', got=t2, want=tree)
        T.check(sorted(a2) == sorted(attrs) and all(eq_tree(a2[w], attrs[w]) for w in a2), f'attributes differ from the history after {op}',
                got=a2, want=attrs)
        T.state('file', sorted((q, sorted(at(tree, q))) for q in paths(tree)))
    os.unlink(p)
    if over and refused:
        T.sig(ops)


def _arr(t):
    return {k: _arr(v) if isinstance(v, dict) else np.asarray(v) for k, v in t.items()}


def files(rng, T):
    """Histories of file opens with every flag, through every opener."""
    tree = {}                     # path -> dict or absent
    ops = []
    for i in range(int(rng.integers(5, 25))):
        p = f'f{T.case}_{int(rng.integers(2))}.h5'
        flag = pick(rng, ['r', 'a', 'x', 'ac', 'ca', 'w'])
        exists = p in tree
        ok = {'r': exists, 'a': exists, 'x': not exists}.get(flag, True)
        how = pick(rng, ['open', 'open', 'dump_to', 'load', 'bad', 'default'])
        T.note(flag=flag, exists=exists, how=how)
        before = digest(p) if exists else None
        k, v = f'k{i}', value(rng)
        if how == 'bad':
            T.raises(ValueError, lambda: h5.File(p, pick(rng, ['rw', 'r+', '', None, 'W'])), 'an unknown open flag must be refused')
            ok = False
        elif how == 'load':
            if exists:
                T.check(R.tree_diff(h5.File.load_from(p), tree[p]) is None, 'load_from differs from the history')
            else:
                T.raises(OSError, lambda: h5.File.load_from(p), 'loading an absent file must fail')
            ok = False
        elif how == 'default':
            fn = lambda: h5.File.dump_to(p, {k: v})      # default: create or extend
            fn()
            tree.setdefault(p, {})[k] = v
            ok = True
        elif how == 'dump_to':
            if flag == 'r':
                T.raises(Exception, lambda: h5.File.dump_to(p, {k: v}, f_flag='r'), 'dumping to a read-only file must fail')
                ok = False
            elif ok:
                h5.File.dump_to(p, {k: v}, f_flag=flag)
                tree[p] = ({} if flag == 'w' else tree.get(p, {})) | {k: v}
            else:
                T.raises(OSError, lambda: h5.File.dump_to(p, {k: v}, f_flag=flag), 'this open must be refused', flag=flag)
        else:
            if ok:
                with h5.File(p, flag) as f:
                    if flag == 'w' or not exists:
                        T.check(len(f) == 0, 'a new or truncated file must be empty', flag=flag)
                        tree[p] = {}
                    T.check(sorted(f.keys()) == sorted(tree[p]), 'an opened file lost its content', flag=flag)
                    if flag == 'r':
                        T.raises(Exception, lambda: f.datasets.create(k, v), 'writing to a read-only file must fail')
                    else:
                        f.datasets.create(k, v)
                        tree[p][k] = v
            else:
                T.raises(OSError, lambda: h5.File(p, flag), 'this open must be refused', flag=flag, exists=exists)
        if before is not None and (not ok or flag == 'r') and how != 'default':
            T.check(digest(p) == before, 'a refused or read-only open changed the file', flag=flag, how=how)
        T.check(os.path.exists(p) == (p in tree), 'file existence differs from the history', flag=flag, how=how)
        for q, t in tree.items():
            T.check(eq_tree(R.read_tree(q), t), 'file content differs from the history', q=q)
        T.ev('open_ok' if ok else 'open_refused')
        T.state('open', (flag, exists, how, ok))
        ops.append((flag, exists, how, ok))
    for q in tree:
        os.unlink(q)
    T.sig(ops)


def paths_(rng, T):
    """Requests under nested paths, link targets as given, overwriting with other shapes."""
    p = f'n{T.case}.h5'
    v = {k: value(rng) for k in ('d', 'g/d', 'g/h/d', 'g/e')}
    with h5.File(p, 'x') as f:
        f.create_group('g').create_group('h')
        for k in v:
            where, _, leaf = k.rpartition('/')
            (f[where] if where else f).datasets.create(leaf, v[k])
    hist = []

    def state(what):
        with h5py.File(p, 'r') as f:
            for k, w in v.items():
                T.check(same(f[k][()], w) and f[k].dtype == np.asarray(w).dtype and f[k].shape == np.shape(w), f'{what}: stored data set differs', key=k, got=f[k][()], want=w)
    for _ in range(int(rng.integers(4, 14))):
        k = pick(rng, list(v))
        op = pick(rng, ['over', 'excl', 'empty', 'group', 'set', 'new', 'member', 'reshape', 'reshape', 'soft', 'ext'])
        fl = pick(rng, ['ac', 'ca'])
        with h5.File(p, 'a') as f:
            ds = f.datasets
            if op == 'over':
                w = value(rng, (v[k].shape, v[k].dtype))
                r = ds.create(k, w, flag=fl)
                T.check(r._raw.name == '/' + k and same(r[()], w), 'create under a path returned another data set', key=k, got=r._raw.name)
                v[k] = w
            elif op == 'excl':
                T.raises(ValueError, lambda: ds.create(k, v[k]), 'exclusive creation over an existing path must fail')
                T.raises(ValueError, lambda: ds.create_empty(k, (1,), 'f8'), 'exclusive creation over an existing path must fail')
                T.raises(ValueError, lambda: f.create_group(k), 'exclusive creation over an existing path must fail')
                T.raises(ValueError, lambda: f.create_group(k, flag=fl), 'a data set is not a group')
                T.raises(ValueError, lambda: f.create_group('g/h'), 'exclusive creation over an existing path must fail')
                T.raises(ValueError, lambda: f.create_soft_link(k, '/g'), 'exclusive creation over an existing path must fail')
            elif op == 'empty':
                r = ds.create_empty(k, (7,), 'i2', flag=fl)
                T.check(r._raw.name == '/' + k and same(r[()], v[k]), 'create-or-access under a path returned another data set')
            elif op == 'group':
                r = f.create_group('g/h', flag=fl)
                T.check(r._raw.name == '/g/h', 'create-or-access under a path returned another group')
                T.raises(ValueError, lambda: ds.create('g/h', 1, flag=fl), 'a group is not a data set')
                T.raises(ValueError, lambda: ds.create_empty('g/h', (), 'f8', flag=fl), 'a group is not a data set')
            elif op == 'set':
                w = value(rng, (v[k].shape, v[k].dtype))
                if w.size:
                    ds[k] = w
                    v[k] = w
            elif op == 'new':
                n = pick(rng, ['', 'g/', 'g/h/', 'q/r/']) + f'n{len(v)}'
                w = value(rng)
                r = ds.create(n, w, **pick(rng, [{}, {'flag': fl}]))
                T.check(r._raw.name == '/' + n, 'create under a path returned another data set')
                v[n] = w
            elif op == 'member':
                T.check(k in f and k in ds and 'g/h' in f and 'g/h' not in ds and 'g/no' not in f and 'g/no' not in ds, 'membership of paths')
                T.check(same(f[k][()], v[k]) and same(ds[k], v[k]), 'item under a path')
            elif op == 'reshape':
                # stored as asked, filled as asked, or refused with the old content
                w = rng.integers(-9, 9, size=pick(rng, [v[k].shape[::-1], (v[k].size,), (v[k].size, 1), (1, v[k].size), (2, 3), (4,), (1,), ()])).astype(v[k].dtype)
                how = pick(rng, ['create', 'set'])
                try:
                    ds.create(k, w, flag=fl) if how == 'create' else ds.__setitem__(k, w)
                except Exception:
                    T.ev('reshape_refused')
                else:
                    got = np.asarray(f._raw[k][()])
                    try:
                        fill = np.empty(v[k].shape, w.dtype)
                        fill[...] = w
                    except ValueError:
                        fill = None
                    T.check(got.shape == w.shape and same(got, w) or fill is not None and got.shape == fill.shape and same(got, fill)
                            or got.shape == v[k].shape and (got.size == w.size == 0 or got.size == w.size == 1 and got.ravel()[0] == w.ravel()[0]),
                            'data of another shape was stored neither as given nor as a fill', old=v[k].shape, new=w.shape, got=got)
                    v[k] = got
                    T.ev('reshape_stored')
            elif op == 'soft':
                where, target = pick(rng, [('', '/g/d'), ('', 'g/d'), ('g', 'd'), ('g', '/d'), ('g', 'h/d'), ('g/h', '/g/e'), ('', 'g/h'), ('g', 'h'), ('', 'absent'), ('g', '/no/such')])
                g = f[where] if where else f
                n = 'l'
                by = chance(rng, .5) and where != ''
                (f.create_soft_link(where + '/' + n, target) if by else g.create_soft_link(n, target))
                ln = g._raw.get(n, getlink=True)
                T.check(isinstance(ln, h5py.SoftLink) and ln.path == target, 'soft link points elsewhere', got=ln.path, want=target)
                to = (target if target[0] == '/' else where + '/' + target).lstrip('/')
                if to in v:
                    T.check(same(g.datasets[n], v[to]), 'soft link does not resolve to its target', where=where, target=target)
                elif to == 'g/h':
                    T.check(isinstance(g[n], h5.Group) and g[n]._raw.id.__hash__() == f['g/h']._raw.id.__hash__(), 'soft link to a group')
                else:
                    T.raises(KeyError, lambda: g[n], 'a link to nothing')
                del g._raw[n]
                T.ev('soft')
            elif op == 'ext':
                os.makedirs(f'sub{T.case}', exist_ok=True)
                other = f'sub{T.case}/e.h5'
                with h5.File(other, 'w') as q:
                    q.dump({'a': 1, 'b': {'c': [2][0]}})
                pth = pick(rng, ['/', '/b', 'b/c', '/a'])
                name = pick(rng, [other, os.path.abspath(other)])
                f.create_external_link('x', name, pth) if pth != '/' or chance(rng, .5) else f.create_external_link('x', name)
                ln = f._raw.get('x', getlink=True)
                T.check(isinstance(ln, h5py.ExternalLink) and ln.path == pth and ln.filename == name, 'external link points elsewhere', got=(ln.filename, ln.path), want=(name, pth))
                o = f['x']
                if pth in ('/', '/b'):
                    T.check(sorted(o.keys()) == (['a', 'b'] if pth == '/' else ['c']), 'external link to a group')
                else:
                    T.check(int(o[()]) == (2 if pth == 'b/c' else 1), 'external link to a data set')
                del o
                del f._raw['x']
                os.unlink(other)
                os.rmdir(f'sub{T.case}')
                T.ev('external')
        hist.append((op, k))
        state(op)
        T.ev('path_op')
    os.unlink(p)
    T.sig(hist)


MONITORS = [
    Monitor('paths', paths_, 250, 3000, shards=2, need={'path_op': 500, 'soft': 30, 'external': 30, 'reshape_refused': 20, 'reshape_stored': 10}),
    Monitor('items', items, 360, 6000, shards=4, need={'accepted': 300, 'recast': 5, 'refused': 100, 'soft_link': 3}),
    Monitor('files', files, 150, 1500, need={'open_ok': 100, 'open_refused': 100}),
]
