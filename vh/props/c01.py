"""C01: nested string-keyed mapping (DataDict)."""
import json
from collections.abc import Mapping
import numpy as np, yaml
from pyhipp.core import DataDict, DataTable
from pyhipp.core.abc import HasDictRepr, HasSimpleRepr
from ..core import Monitor
from ..gen import pick, chance

RULE = ('random histories of 10-60 operations over a pool of nested mappings, mirrored by a model of plain '
        'dicts with shared nodes; after every operation every live mapping is compared with its model. '
        'A case is non-trivial if it performed at least one nested-path write and one copy or union; '
        'identity is the sequence of (operation, key, outcome).')
KEYS = ['a', 'b', 'items', 'x', 'foo', 'Data1', '', ' sp', 'k.1', 'get', 'é']
LEAVES = [0, 1, -3, 2.5, 's', '', None, True, (1, 2), 'a/b']


class Node:
    """Model node: same object <-> same real container."""
    def __init__(self, d, real):
        self.d, self.real = d, real


def segs(path):
    return [s for s in path.split('/') if s]


def resolve(node, path):
    v = node
    parts = [path] if '/' not in path else segs(path)
    for p in parts:
        if not isinstance(v, Node):
            raise TypeError
        v = v.d[p]
    return v


def plain(v):
    return {k: plain(x) for k, x in v.d.items()} if isinstance(v, Node) else v


def real_of(v):
    return v.real if isinstance(v, Node) else v



def compare(T, node):
    r = node.real
    T.eq(list(r), list(node.d), 'keys/order differ from the history')
    T.eq(len(r), len(node.d), 'length differs')
    T.eq(list(r.keys()), list(node.d), 'keys() differ')
    vals, items = list(r.values()), list(r.items())
    T.check(len(vals) == len(node.d) == len(items), 'values()/items() length')
    for (k, v), got, (ik, iv) in zip(node.d.items(), vals, items):
        T.check(got is real_of(v) and iv is real_of(v) and ik == k,
                f'value under {k!r} is not the stored object', got=got, want=real_of(v))
        T.check(k in r, 'stored key reported as absent')
    T.ev('mapping_compared')


def walk(nodes):
    seen, todo = [], list(nodes)
    while todo:
        n = todo.pop()
        if any(n is s for s in seen):
            continue
        seen.append(n)
        todo += [v for v in n.d.values() if isinstance(v, Node)]
    return seen


def reachable(root):
    return walk([root])


def rand_path(rng, node, depth_bias=.6):
    """A key or a slash path, mostly existing, with noise slashes."""
    parts, v = [], node
    while True:
        ks = list(v.d)
        if ks and chance(rng, .8):
            k = pick(rng, ks)
        else:
            k = pick(rng, KEYS)
        if parts and k == '':
            k = 'a'
        parts.append(k)
        nxt = v.d.get(k)
        if isinstance(nxt, Node) and k != '' and chance(rng, depth_bias):
            v = nxt
            continue
        if k not in v.d and k != '' and depth_bias > 0 and chance(rng, .3):
            parts += [pick(rng, KEYS[:6]) for _ in range(int(rng.integers(1, 3)))]     # below an absent mapping
        break
    if len(parts) == 1 and (parts[0] == '' or chance(rng, .7)):
        return parts[0]
    s = '/'.join(parts)
    if chance(rng, .3):
        s = '/' + s
    if chance(rng, .3):
        s = s + '/'
    if chance(rng, .2):
        s = s.replace('/', '//')
    if '/' in s and not segs(s):
        return 'a'
    return s


def history(rng, T):
    """Random operation histories against a model of shared plain dicts."""
    def fresh(init):
        if chance(rng, .2):
            r = dict(init)
            n = Node({}, r)
        else:
            src = dict(init)
            r = DataDict(src)
            src['__poison'] = 1           # the source mapping must be copied
            n = Node({}, r)
        return n

    def new_node(depth=0):
        items, model = {}, {}
        for _ in range(int(rng.integers(0, 4))):
            k = pick(rng, KEYS)
            if depth < 2 and chance(rng, .5):
                c = new_node(depth + 1)
                items[k], model[k] = c.real, c
            else:
                items[k] = model[k] = pick(rng, LEAVES)
        n = fresh(items)
        n.d = model
        return n

    def new_root():
        while True:
            n = new_node()
            if isinstance(n.real, DataDict):
                return n
    roots = [new_root() for _ in range(2)]
    if chance(rng, .1):
        roots.append(Node({}, DataDict()))
        for bad in (3, [('a', 1)], 'ab', [1]):
            T.raises((AssertionError, TypeError, ValueError, AttributeError), lambda: DataDict(bad), 'a source that is no mapping must be refused')
    ops = []
    nested_w = copies = 0
    for _ in range(int(rng.integers(10, 60))):
        i = int(rng.integers(len(roots)))
        root = roots[i]
        r = root.real
        op = pick(rng, ['get', 'get', 'set', 'set', 'set', 'del', 'tget', 'tset', 'tdel', 'copy', 'or',
                        'ior', 'update', 'clear', 'in', 'setdefault', 'pop', 'repr', 'getd'])
        out = None
        if op in ('get', 'getd'):
            p = rand_path(rng, root)
            T.note(op=op, path=p)
            try:
                want = ('v', resolve(root, p))
            except KeyError:
                want = ('KeyError',)
            except TypeError:
                continue
            if op == 'getd':
                got = r.get(p, LEAVES)
                T.check(got is (real_of(want[1]) if len(want) == 2 else LEAVES), 'get(path, default)', path=p)
            elif len(want) == 2:
                T.check(r[p] is real_of(want[1]), 'lookup returned another object', path=p)
            else:
                T.raises(KeyError, lambda: r[p], 'lookup of an absent path must raise KeyError', path=p)
            out = want[0]
        elif op in ('set', 'setdefault'):
            p = rand_path(rng, root)
            v = new_node(1) if chance(rng, .35) else pick(rng, LEAVES)
            parts = segs(p) if '/' in p else [p]
            T.note(op=op, path=p)
            if op == 'setdefault':
                if '/' in p:
                    continue
                had = p in root.d
                got = r.setdefault(p, real_of(v))
                if not had:
                    root.d[p] = v
                T.check(got is real_of(root.d[p]), 'setdefault value')
            else:
                try:
                    parent = resolve(root, '/'.join(parts[:-1]) + '/') if parts[:-1] else root
                except (KeyError, TypeError):
                    parent = None
                if parent is None:
                    try:
                        r[p] = real_of(v)
                        T.fail('write below an absent parent succeeded', path=p)
                    except (KeyError, TypeError):
                        pass
                    out = 'refused'
                    T.ev('write_below_absent')
                elif isinstance(parent, Node):
                    if isinstance(v, Node) and any(parent is x for x in reachable(v)):
                        continue
                    r[p] = real_of(v)
                    parent.d[parts[-1]] = v
                    nested_w += len(parts) > 1
                else:
                    continue
        elif op in ('del', 'pop'):
            p = rand_path(rng, root)
            parts = segs(p) if '/' in p else [p]
            T.note(op=op, path=p)
            try:
                v = resolve(root, p)
                parent = resolve(root, '/'.join(parts[:-1]) + '/') if parts[:-1] else root
            except KeyError:
                T.raises(KeyError, (lambda: r.pop(p)) if op == 'pop' else (lambda: r.__delitem__(p)),
                         'deleting an absent path must raise KeyError', path=p)
                v = parent = None
            except TypeError:
                continue
            if parent is not None:
                if op == 'pop':
                    T.check(r.pop(p) is real_of(v), 'pop returned another object')
                else:
                    del r[p]
                del parent.d[parts[-1]]
                nested_w += len(parts) > 1
        elif op == 'tget':
            ps = []
            for _ in range(int(rng.integers(0, 4))):
                p = rand_path(rng, root)
                try:
                    resolve(root, p)
                    ps.append(p)
                except (KeyError, TypeError):
                    pass
            got = r[tuple(ps)]
            T.check(isinstance(got, tuple) and len(got) == len(ps)
                    and all(g is real_of(resolve(root, p)) for g, p in zip(got, ps)),
                    'tuple lookup is not element-wise', paths=ps, got=got)
        elif op == 'tset':
            n = int(rng.integers(1, 4))
            ks = [pick(rng, KEYS) for _ in range(n)]
            vs = [pick(rng, LEAVES) for _ in range(n)]
            T.note(op=op, keys=ks)
            if chance(rng, .2):
                T.raises((AssertionError, ValueError), lambda: r.__setitem__(tuple(ks), tuple(vs + [1])),
                         'tuple assignment of another length must be refused')
            else:
                subs = [k for k, v in root.d.items() if isinstance(v, Node) and k and k not in ks]
                if subs and chance(rng, .6):
                    s, k = pick(rng, subs), pick(rng, KEYS[:6])
                    ks.append(f'{s}/{k}')
                    vs.append(pick(rng, LEAVES))
                    root.d[s].d[k] = vs[-1]
                    T.ev('tuple_path_write')
                r[tuple(ks)] = tuple(vs) if chance(rng, .5) else list(vs)
                root.d.update((k, v) for k, v in zip(ks, vs) if '/' not in k)
        elif op == 'tdel':
            ks = list(root.d)
            ks = [k for k in ks if chance(rng, .4)]
            if not ks:
                continue
            subs = [k for k, v in root.d.items() if isinstance(v, Node) and k and k not in ks and v.d]
            paths = []
            if subs and chance(rng, .6):
                s = pick(rng, subs)
                pk = pick(rng, list(root.d[s].d))
                if pk:
                    paths = [f"/{s}/{pk}"]
            # the same node may be reached twice only through different top-level keys
            del r[tuple(ks + paths)]
            for k in ks:
                del root.d[k]
            if paths:
                del root.d[s].d[pk]
                T.ev('tuple_path_delete')
        elif op == 'copy':
            n = Node(dict(root.d), r.copy() if chance(rng, .6) else DataDict(r))
            T.check(isinstance(n.real, DataDict) and n.real is not r, 'a copy must be a new DataDict')
            roots.append(n)
            copies += 1
        elif op in ('or', 'ior', 'update'):
            oth = pick(rng, roots) if chance(rng, .7) else new_node()
            if op == 'or':
                before = plain(oth)
                n = Node(dict(root.d) | oth.d, r | oth.real)
                T.check(isinstance(n.real, DataDict) and n.real is not r, 'union must be a new DataDict')
                roots.append(n)
                copies += 1
            elif op == 'ior':
                s = r
                s |= oth.real
                T.check(s is r, 'in-place union must keep the object')
                root.d.update(oth.d)
            else:
                r.update(oth.real)
                root.d.update(oth.d)
        elif op == 'clear':
            if chance(rng, .2):
                r.clear()
                root.d.clear()
        elif op == 'in':
            for k in KEYS:
                T.eq(k in r, k in root.d, 'membership differs', k=k)
            for k in root.d:
                if isinstance(root.d[k], Node) and root.d[k].d and k:
                    sub = next(iter(root.d[k].d))
                    T.check(f'{k}/{sub}' not in r, 'membership must look at direct children only')
        elif op == 'repr':
            def rep(v):
                return {k: rep(x) for k, x in v.d.items()} if isinstance(v, Node) else v

            def unwrap(v):          # plain dicts are left as they are
                if isinstance(v, Mapping):
                    return {k: unwrap(v[k]) for k in v}
                return v
            got = r.to_simple_repr()
            T.check(type(got) is dict, 'simple representation must be a plain dict')
            for k, v in root.d.items():
                if isinstance(v, Node) and isinstance(v.real, DataDict):
                    T.check(not isinstance(got[k], DataDict), 'nested mapping left unconverted', k=k)
            pure = all(isinstance(x.real, DataDict) for x in reachable(root))
            if pure:
                T.eq(got, plain(root), 'simple representation differs')
                T.check(eval(repr(r)) == plain(root), 'printed form differs')
                T.eq(json.loads(r.to_json()), json.loads(json.dumps(plain(root))), 'to_json differs')
                T.check(yaml.load(r.to_yaml(), yaml.Loader) == plain(root), 'to_yaml differs')
                T.ev('repr')
        T.ev('op_' + op)
        ops.append((op, out, i))
        if len(roots) > 6:
            roots.pop(int(rng.integers(len(roots))))
        for n in walk(roots):
            if isinstance(n.real, DataDict):
                compare(T, n)
            else:
                T.check(list(n.real) == list(n.d), 'plain child dict differs')
        T.state('mapping', [repr(plain(x)) for x in roots])
    if nested_w and copies:
        T.sig(ops)


class Described(HasDictRepr):
    repr_attr_keys = ('u', 'v')

    def __init__(self, u, v):
        super().__init__()
        self.u, self.v = u, v


class Bare(HasSimpleRepr):
    def to_simple_repr(self):
        return ['bare']


def objects(rng, T):
    """Values of any kind are kept as they are and described by their own description."""
    def value(depth=0):
        k = int(rng.integers(10))
        return (np.arange(k), [1, [2]], {1, 2}, {'p': 1}, DataTable({'c': np.arange(3)}), Described(k, Bare()), Bare(), lambda: 0, None,
                DataDict({str(i): value(depth + 1) for i in range(int(rng.integers(1, 3)))}) if depth < 3 else b'x')[k]

    def desc(v):
        if isinstance(v, DataDict):
            return {k: desc(x) for k, x in v.items()}
        if isinstance(v, DataTable):
            return {k: x for k, x in v.items()}
        if isinstance(v, Described):
            return {'type': 'Described', 'u': v.u, 'v': ['bare']}
        return ['bare'] if isinstance(v, Bare) else v

    def eq(a, b):
        if isinstance(b, dict):
            return type(a) is dict and list(a) == list(b) and all(eq(a[k], b[k]) for k in b)
        return a is b or type(a) is type(b) and isinstance(b, (int, str, list)) and a == b
    d = {k: value() for k in rng.permutation(KEYS)[:int(rng.integers(1, 5))].tolist()}
    r = DataDict(d)
    T.check(eq(r.to_simple_repr(), desc(r)), 'description of the values', got=r.to_simple_repr(), want=desc(r))
    e = {k: value() for k in rng.permutation(KEYS)[:2].tolist()}
    before = dict(d)
    for u, w in ((r.copy(), d), (r | e, d | e), (r | DataDict(e), d | e), (DataDict(r), d)):
        T.check(list(u) == list(w) and all(u[k] is w[k] for k in w), 'values are the very objects')
    T.check(list(r) == list(before) and all(r[k] is before[k] for k in before), 'a union changed its left side')
    for k, v in r.items():
        if isinstance(v, DataDict) and k:
            for kk in v:
                T.check(r[f'{k}/{kk}'] is v[kk], 'nested lookup')
                for bad in (f' {kk}', f'{kk} ', kk.upper() + '_', f'.{kk}'):
                    T.raises(KeyError, lambda: r[f'{k}/{bad}'], 'absent nested name', name=bad)
            # one table under two names, changed through one of them
            r['alias'] = v
            r[f'alias/new'] = 1
            T.check(r[f'{k}/new'] == 1 and r[k] is v and r['alias'] is v, 'shared nested mapping')
            break
    T.ev('objects')
    T.sig('objects', sorted((k, type(v).__name__) for k, v in d.items()))


def tuples(rng, T):
    """Tuple operations act as the sequence of single ones."""
    def build():
        return {k: ({q: int(rng.integers(9)) for q in 'xyz'[:int(rng.integers(1, 4))]} if chance(rng, .6) else int(rng.integers(9))) for k in 'abc'[:int(rng.integers(1, 4))]}

    def wrap(m):
        return DataDict({k: DataDict(v) if isinstance(v, dict) else v for k, v in m.items()})

    def back(d):
        return {k: back(d[k]) if isinstance(d[k], (DataDict, dict)) else d[k] for k in d}
    m = build()
    names = list('abcd') + [f'{a}/{b}' for a in 'abc' for b in 'xyz']
    live = [k for k in m] + [f'{k}/{q}' for k, v in m.items() if isinstance(v, dict) for q in v]
    for op in ('del', 'set', 'get'):
        ks = [pick(rng, live if chance(rng, .85) else names) for _ in range(int(rng.integers(1, 5)))]
        r = wrap(m)
        ref = json.loads(json.dumps(m))
        vs = [pick(rng, [1, 's', {'x': 5}, {'y': 6, 'z': 7}]) for _ in ks]
        T.note(op=op, keys=ks, values=vs, start=m)

        def run():
            if op == 'del':
                del r[tuple(ks)]
            elif op == 'set':
                r[tuple(ks)] = [dict(v) if isinstance(v, dict) else v for v in vs]
            else:
                return r[tuple(ks)]
        got = []
        try:
            for k, v in zip(ks, vs):
                par, *rest = k.split('/')
                box, last = (ref, par) if not rest else (ref[par], rest[0])
                if rest and not isinstance(box, dict):
                    raise TypeError
                if op == 'del':
                    del box[last]
                elif op == 'set':
                    box[last] = dict(v) if isinstance(v, dict) else v
                else:
                    got.append(box[last])
        except (KeyError, TypeError):
            T.raises((KeyError, TypeError, AttributeError), run, f'tuple {op} of which one step is impossible', keys=ks)
            T.ev('tuple_refused')
            continue
        res = run()
        T.eq(back(r), ref, f'state after a tuple {op}', keys=ks)
        if op == 'get':
            T.check(isinstance(res, tuple) and [back(x) if isinstance(x, (dict, DataDict)) else x for x in res] == got, 'tuple lookup', keys=ks)
        T.ev('tuple_' + op)
        T.sig('tuples', op, ks, sorted(live))


MONITORS = [
    Monitor('objects', objects, 400, 8000, need={'objects': 300}),
    Monitor('tuples', tuples, 600, 12000, need={'tuple_del': 100, 'tuple_set': 100, 'tuple_get': 100, 'tuple_refused': 50}),
    Monitor('history', history, 1000, 16000, shards=3,
            need={'op_set': 100, 'op_copy': 20, 'op_or': 20, 'op_tset': 20, 'op_del': 20, 'write_below_absent': 50, 'repr': 5}),
]
