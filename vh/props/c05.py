"""C05: failures while writing HDF5."""
import os
import h5py
import numpy as np
from pyhipp.core import DataDict
from pyhipp.io import h5
from ..core import Monitor, same
from ..gen import pick, chance
from .. import h5ref as R

RULE = ('random trees are written onto files with earlier content while an error is injected at every single low-level step in turn '
        '(group creation, dataset creation, element write, attribute creation), or while the tree holds an unsupported value or name at '
        'every position, or while the caller raises inside an open file. Non-trivial: the fault really fired; identity is (entry point, tree, step, kind).')
ASSUMPTIONS = ['a fault is an exception from the h5py call; process death inside libhdf5 is outside the guarantee of the format']


class Boom(Exception):
    pass


class Faults:
    """Counts and logs the low-level write steps; raises at step `at`."""
    TARGETS = [(h5py.Group, 'create_group'), (h5py.Group, 'create_dataset'), (h5py.Dataset, '__setitem__'),
               (h5py.AttributeManager, 'create'), (h5py.AttributeManager, 'modify'), (h5py.AttributeManager, '__setitem__'),
               (h5py.Group, '__setitem__')]

    def __init__(self, at=None, exc=None):
        self.at, self.exc, self.n, self.log, self.fired, self.depth = at, exc, 0, [], False, 0

    def __enter__(self):
        self.orig = []
        for cls, name in self.TARGETS:
            f = getattr(cls, name)
            self.orig.append((cls, name, f))
            setattr(cls, name, self.wrap(f, name))
        return self

    def wrap(self, f, name):
        def w(obj, key, *a, **kw):
            if self.depth:                       # h5py calling itself
                return f(obj, key, *a, **kw)
            i, self.n = self.n, self.n + 1
            if i == self.at:
                self.fired = True
                raise self.exc
            self.depth += 1
            try:
                r = f(obj, key, *a, **kw)
            finally:
                self.depth -= 1
            base = obj.name if hasattr(obj, 'name') else '@'
            self.log.append((name, base, key if isinstance(key, (str, bytes)) else '...'))
            return r
        return w

    def __exit__(self, *a):
        for cls, name, f in self.orig:
            setattr(cls, name, f)


def simple_tree(rng, depth=0):
    out = {}
    for k in rng.permutation(R.GNAMES)[:int(rng.integers(1, 4))]:
        out[str(k)] = simple_tree(rng, depth + 1) if depth < 2 and chance(rng, .3) else \
            pick(rng, [np.arange(3), 1.5, 'text', np.zeros((2, 2)), b'raw', 7])
    return out


def intact(T, p, earlier, attrs, what):
    """Everything stored earlier is readable and unchanged; file reusable."""
    T.check(R.open_handles() == 0, f'{what}: the file was left open')
    got = R.read_tree(p)

    def sub(e, g, path=''):
        for k, v in e.items():
            if k not in g:
                T.fail(f'{what}: earlier item {path}/{k} is gone')
            if isinstance(v, dict):
                sub(v, g[k], f'{path}/{k}')
            elif not R.leaf_ok(g[k], v):
                T.fail(f'{what}: earlier item {path}/{k} changed', got=g[k], want=v)
    sub(earlier, got)
    T.checks += 1
    a = R.read_attrs(p)
    T.check(all(np.asarray(a['/'][k]) == v for k, v in attrs.items()), f'{what}: earlier attributes changed')
    with h5.File(p, 'a') as f:                   # reopen for writing at once
        f.attrs.create('__probe', 1)
    with h5.File(p, 'a') as f:
        T.check(f.attrs['__probe'] == 1, f'{what}: file not writable after the failure')
        del f._raw.attrs['__probe']
    return got


def injected(rng, T):
    """A fault at every step of a dump in turn."""
    earlier = simple_tree(rng)
    new = {f'n_{k}': v for k, v in simple_tree(rng).items()}
    how = pick(rng, ['dump_to', 'dump_to_key', 'group', 'datasets', 'attrs', 'overwrite', 'single', 'groupin', 'load_like'])
    if how == 'overwrite':
        new = {k: v for k, v in earlier.items() if not isinstance(v, dict)} | new
    exc_t = pick(rng, [Boom, OSError, RuntimeError, ValueError, KeyError, KeyboardInterrupt, MemoryError])
    p = f'c{T.case}.h5'
    step, total = 0, None
    while total is None or step < total:
        h5.File.dump_to(p, earlier, f_flag='w')
        with h5.File(p, 'a') as f:
            f.attrs.create('keep', 42)
        exc = exc_t('injected')

        def run():
            if how == 'dump_to':
                h5.File.dump_to(p, new)
            elif how == 'overwrite':
                h5.File.dump_to(p, new, dump_flag='ac')
            elif how == 'dump_to_key':
                h5.File.dump_to(p, DataDict(new), key='n_k/sub', f_flag='a')
            elif how == 'single':
                h5.File.dump_to(p, np.arange(4), key='n_k/leaf')
            elif how == 'groupin':
                with h5.File(p, 'ac') as f:
                    g = f.create_group('n_g', flag='ac')
                    g.attrs.create('u', 1)
                    g.dump(new)
            elif how == 'datasets':
                with h5.File(p, 'a') as f:
                    f.datasets.dump({k: v for k, v in new.items() if not isinstance(v, dict)} | {'n_l': 3})
            elif how == 'attrs':
                with h5.File(p, 'a') as f:
                    f.attrs.dump({'n_a': 1, 'n_b': np.arange(2)})
            else:
                with h5.File(p, 'a') as f:
                    f.dump(new)
        if total is None:
            with Faults() as fl:
                run()
            total = fl.n
            T.check(total > 0, 'the workload performed no write step')
            continue
        T.note(how=how, step=step, of=total, exc=exc_t.__name__)
        with Faults(step, exc) as fl:
            try:
                run()
                T.fail('an injected error was swallowed', how=how, step=step)
            except BaseException as e:
                if e is not exc and type(e).__name__ == 'Violation':
                    raise
                T.check(e is exc, f'another error reached the caller: {type(e).__name__}: {e}', how=how, step=step)
        T.check(fl.fired and fl.n == step + 1, 'writing continued after the error', n=fl.n, step=step)
        T.ev('fault_fired')
        keep = {k: v for k, v in earlier.items() if how != 'overwrite' or isinstance(v, dict)}
        got = intact(T, p, keep, {'keep': 42}, f'fault at step {step} of {how}')
        for k, v in earlier.items():
            if k not in keep:
                T.check(R.leaf_ok(got[k], v), 'an overwritten item is neither old nor new')
        # completed steps are on disk
        flat = dict(R.leaves(got))
        allnew = dict(R.leaves(new))
        for name, base, key in fl.log:
            if name == 'create_dataset':
                full = (base.rstrip('/') + '/' + key).lstrip('/')
                T.check(full in flat, 'a dataset completed before the error is missing', full=full)
                tail = full.split('n_k/sub/')[-1].split('n_g/')[-1]
                if tail in allnew:
                    T.check(R.leaf_ok(flat[full], allnew[tail]), 'a dataset completed before the error is wrong', full=full)
                T.ev('completed_step_verified')
        T.state('fault', (how, step, exc_t.__name__))
        T.sig(how, step, exc_t.__name__, sorted(allnew))
        step += 1
    os.unlink(p)


UNSUPPORTED = [None, [1, 2], (1, 2), {1, 2}, object(), range(3)]


def rejected(rng, T):
    """An unsupported value or name at any position is refused before any write."""
    earlier = simple_tree(rng)
    new = {f'n_{k}': v for k, v in simple_tree(rng).items()}
    poss = [()] + [tuple(k.split('/')) for k in R.groups(new)]
    p = f'u{T.case}.h5'
    for pos in poss:
        bad = R.merge({}, {})
        import copy
        t = copy.deepcopy(new)
        n = t
        for s in pos:
            n = n[s]
        items = list(n.items())
        i = int(rng.integers(len(items) + 1))
        if chance(rng, .6):
            items.insert(i, ('zbad', pick(rng, UNSUPPORTED)))
        else:
            items.insert(i, (pick(rng, [5, b'k', None, ('a',), np.int64(3), np.float32(1), np.bytes_(b'k'), 1.5, True]), 1))
        n.clear()
        n.update(items)
        h5.File.dump_to(p, earlier, f_flag='w')
        how = pick(rng, ['dump_to', 'key', 'group', 'sub', 'notmap'])
        T.note(how=how, pos=pos, at=i)
        with Faults() as fl:
            if how == 'dump_to':
                T.raises(TypeError, lambda: h5.File.dump_to(p, t), 'unsupported content must be refused')
            elif how == 'key':
                T.raises(TypeError, lambda: h5.File.dump_to(p, t, key='zz/y'), 'unsupported content must be refused')
            elif how == 'notmap':
                T.raises(TypeError, lambda: h5.File.dump_to(p, pick(rng, [3, 'x', [1], None])), 'a non-mapping must be refused')
            else:
                with h5.File(p, 'a') as f:
                    g = f.create_group('zsub') if how == 'sub' else f
                    T.raises(TypeError, lambda: g.dump(t), 'unsupported content must be refused')
                    T.check(len(g) == (0 if how == 'sub' else len(earlier)), 'items were written before the refusal')
        T.check(not any(x[0] == 'create_dataset' for x in fl.log), 'a dataset was written although the data was refused', log=fl.log)
        got = intact(T, p, earlier, {}, 'refused data')
        T.check(sorted(k for k in got if k not in ('zz', 'zsub')) == sorted(earlier), 'a refused dump added items')
        T.ev('refused')
        T.sig(how, pos, i)
    os.unlink(p)


def body(rng, T):
    """An error raised by the caller while the file is open."""
    p = f'b{T.case}.h5'
    flag = pick(rng, ['w', 'x', 'ac', 'ca', 'a', 'r'])
    earlier = simple_tree(rng)
    if flag in ('a', 'ac', 'r', 'ca'):
        h5.File.dump_to(p, earlier, f_flag='w')
    else:
        earlier = {}
    new = {f'n_{k}': v for k, v in simple_tree(rng).items()}
    e0 = Boom()
    try:
        with h5.File(p, flag) as f:
            if flag != 'r':
                f.dump(new)
            else:
                f.load()
            raise e0
        T.fail('an error inside the with block was swallowed', flag=flag)
    except Boom as e:
        T.check(e is e0, 'another error reached the caller')
    intact(T, p, earlier | (new if flag != 'r' else {}), {}, 'error in the with block')
    # readers: failing loads leave nothing open
    T.raises(KeyError, lambda: h5.File.load_from(p, 'no/such'), 'loading an absent key must raise KeyError')
    T.check(R.open_handles() == 0, 'a failed load left the file open')
    T.raises(Exception, lambda: h5.File.ls_from(p, 'no_such'), 'listing an absent key must raise')
    T.check(R.open_handles() == 0, 'a failed listing left the file open')
    T.raises(Exception, lambda: h5.File.dump_to(p, {next(iter(R.read_tree(p))): 1}), 'clash must raise')
    T.check(R.open_handles() == 0, 'a failed dump left the file open')
    intact(T, p, earlier, {}, 'later failures')
    f = h5.File(p)
    f.close()
    f.close()
    T.check(R.open_handles() == 0, 'close() left the file open')
    with open(p, 'wb') as g:
        g.write(b'not an hdf5 file')
    T.raises(OSError, lambda: h5.File.load_from(p), 'a foreign file must be refused')
    T.check(open(p, 'rb').read() == b'not an hdf5 file', 'a refused file was changed')
    T.raises(OSError, lambda: h5.File.dump_to(p, new), 'dumping onto a foreign file must be refused')
    T.check(open(p, 'rb').read() == b'not an hdf5 file', 'a refused file was changed')
    os.unlink(p)
    T.ev('body_error')
    T.sig(flag, sorted(earlier), sorted(new))


BADV = [object(), np.arange(11), np.zeros((3, 5, 2)), np.array([object(), 1], dtype=object), np.array(['ab', 'c']), 'not a number', {'a': 1}, [[1], [1, 2]], lambda: 0]


def tried(rng, T):
    """Single writes which may be refused: nothing but their own target changes, and that only if they succeed."""
    p = f't{T.case}.h5'
    earlier = {'g': {'d': np.arange(4.), 'k': {'e': np.arange(3)}}, 'd': np.zeros((2, 3)), 'n': 5}
    attrs = {'a': np.arange(3), 'b': 1.5, 's': 'word'}
    h5.File.dump_to(p, earlier, f_flag='w')
    with h5.File(p, 'a') as f:
        f.attrs.dump(attrs)
        f['g'].attrs.dump(attrs)
    for _ in range(int(rng.integers(1, 5))):
        v = pick(rng, BADV)
        flag = pick(rng, ['x', 'ac', 'ca', 'bad'])
        at = pick(rng, list(attrs))
        T.note(value=repr(v)[:40], flag=flag, attr=at)
        acts = {
            'attr create': (lambda f: f.attrs.create(at, v, flag=flag), ('attr', '/', at)),
            'attr set': (lambda f: f.attrs.__setitem__(at, v), ('attr', '/', at)),
            'attr new': (lambda f: f['g'].attrs.create('new', v, flag=flag), ('attr', 'g', 'new')),
            'attr set absent': (lambda f: f['g'].attrs.__setitem__('new', v), ('attr', 'g', 'new')),
            'attr dump': (lambda f: f['g'].attrs.dump({at: v}, flag=flag), ('attr', 'g', at)),
            'dset create': (lambda f: f['g'].datasets.create('d', v, flag=flag), ('dset', 'g/d')),
            'dset set': (lambda f: f.datasets.__setitem__('g/d', v), ('dset', 'g/d')),
            'dset write': (lambda f: f['g']['d'].__setitem__((), v), ('dset', 'g/d')),
            'dset new': (lambda f: f['g'].datasets.create('new', v, flag=flag), ('dset', 'g/new')),
            'dset set absent': (lambda f: f.datasets.__setitem__('g/new', v), ('dset', 'g/new')),
            'dset over group': (lambda f: f['g'].datasets.create('k', v, flag=flag), None),
            'group over dset': (lambda f: f['g'].create_group('d', flag=flag), None),
            'group again': (lambda f: f['g'].create_group('k', flag=flag), None),
            'empty over group': (lambda f: f['g'].datasets.create_empty('k', (2,), 'f8', flag=flag), None),
            'empty again': (lambda f: f['g'].datasets.create_empty('d', (2,), 'f8', flag=flag), None),
            'soft link over dset': (lambda f: f['g'].create_soft_link('d', '/n', flag=flag), None),
            'external link over group': (lambda f: f['g'].create_external_link('k', 'none.h5', flag=flag), None),
            'attr empty again': (lambda f: f.attrs.create_empty(at, (2,), 'f8', flag=flag), None),
            'dump dict over dset': (lambda f: f['g'].dump({'d': {'x': 1}}, flag=flag), None),
            'dump leaf over group': (lambda f: f['g'].dump({'k': 3}, flag=flag), None),
            'delete absent': (lambda f: f.__delitem__('g/none'), None),
        }
        how = pick(rng, list(acts))
        fn, target = acts[how]
        T.note(how=how)
        before, battrs = R.read_tree(p), R.read_attrs(p)
        try:
            if chance(rng, .5):
                with h5.File(p, 'a') as f:
                    fn(f)
            else:
                f = h5.File(p, 'a')
                try:
                    fn(f)
                finally:
                    f.close()
            done = True
        except Exception:
            done = False
        T.check(R.open_handles() == 0, f'{how}: the file was left open')
        after, aattrs = R.read_tree(p), R.read_attrs(p)

        def drop(t, path):
            t = dict(t)
            head, _, tail = path.partition('/')
            if tail:
                t[head] = drop(t[head], tail)
            else:
                t.pop(head, None)
            return t

        def at_less(a, q, k):
            return {g: {n: w for n, w in d.items() if not (g.strip('/') == q.strip('/') and n == k)} for g, d in a.items()}
        if done and target and target[0] == 'dset':
            before, after = drop(before, target[1]), drop(after, target[1])
            battrs, aattrs = [{g: d for g, d in a.items() if g.strip('/') != target[1]} for a in (battrs, aattrs)]
        elif done and target:
            battrs, aattrs = at_less(battrs, *target[1:]), at_less(aattrs, *target[1:])
        T.check(same(before, after), f'{how}: ' + ('other items changed' if done else 'the refused write changed what is stored'), got=after, want=before)
        T.check(same(battrs, aattrs), f'{how}: ' + ('other attributes changed' if done else 'the refused write changed the attributes'), got=aattrs, want=battrs)
        T.ev('accepted' if done else 'refused write')
        T.state('write', (how, done))
        T.sig(how, flag, repr(v)[:20], done, T.case)
    os.unlink(p)


MONITORS = [
    Monitor('injected', injected, 60, 1500, shards=2, need={'fault_fired': 100, 'completed_step_verified': 50}),
    Monitor('rejected', rejected, 60, 1500, need={'refused': 60}),
    Monitor('body', body, 60, 1000, need={'body_error': 40}),
    Monitor('tried', tried, 200, 4000, need={'refused write': 150, 'accepted': 40}),
]
