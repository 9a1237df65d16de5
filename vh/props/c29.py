"""C29: caches, logs, names, values and descriptions."""
import ast
import contextlib
import io
import json
import os
import re
import time
import numpy as np
import yaml
from pyhipp.core import abc, DataDict
from pyhipp.astro.cosmology.param import Param, ParamList
from pyhipp.astro.cosmology.model import predefined, LambdaCDM
from ..core import Monitor
from ..gen import pick, chance

RULE = ('histories of cache look-ups (falsy values, failing and re-entrant fallbacks, equal keys of other types) over several objects; log calls with every option '
        'captured from standard output; classes built at random on the description bases and instances of the library classes. Identity is the history.')

KEYS = [0, 1, -1, 2, '0', 'a', 'b', '', None, (1, 2), (1, 'a'), 2.5, frozenset([1]), b'a']
SUB = ['x', 'y', '', 'a', 'b', 0, None]


class Boom(Exception):
    pass


def cache(rng, T):
    """First value for ever, computed once, per object and per key."""
    multi = chance(rng, .5)
    cls = abc.HasMultiCache if multi else abc.HasCache
    if chance(rng, .5):
        cls = type('Sub', (cls,), {})
    objs = [cls() for _ in range(int(rng.integers(1, 4)))]
    T.check(len({id(o.cache) for o in objs}) == len(objs), 'objects share a cache')
    model = [{} for _ in objs]
    hist = []
    T.note(multi=multi, n=len(objs))
    for step in range(int(rng.integers(5, 60))):
        i = int(rng.integers(len(objs)))
        key = (pick(rng, KEYS), pick(rng, SUB)) if multi else pick(rng, KEYS)
        args = key if multi else (key,)
        o, m = objs[i], model[i]
        val = pick(rng, [None, 0, False, '', [], step, object(), np.zeros(2), float('nan')])
        calls = []
        kind = pick(rng, ['get'] * 6 + ['fail', 'nested'] + ([] if multi else ['put']))
        hist.append((i, repr(args), kind))
        if kind == 'put':
            o.put_cache(key, val)
            m[key] = val
            T.ev('put')
            continue
        if kind == 'fail':
            def fb():
                calls.append(1)
                raise Boom
            if key in m:
                T.check(o.get_cache_or(*args, fb) is m[key], 'cached value changed', history=hist)
                T.eq(len(calls), 0, 'computed although cached')
            else:
                T.raises(Boom, lambda: o.get_cache_or(*args, fb), 'error of the computation is passed on')
                T.eq(len(calls), 1, 'computed once')
            T.ev('failing')
            continue
        k2 = (pick(rng, KEYS), pick(rng, SUB)) if multi else pick(rng, KEYS)
        v2 = object()

        def fb():
            calls.append(1)
            if kind == 'nested' and k2 != key:
                got = o.get_cache_or(*(k2 if multi else (k2,)), lambda: v2)
                T.check(got is m.get(k2, v2), 'nested look-up', history=hist)
                m.setdefault(k2, v2)
            return val
        had = key in m
        want = m[key] if had else val
        got = o.get_cache_or(*args, fb)
        m.setdefault(key, val)
        T.check(got is want, 'cached value', got=got, want=want, history=hist)
        T.eq(len(calls), 0 if had else 1, 'number of computations', history=hist)
        T.ev('hit' if had else 'miss')
    for o, m in zip(objs, model):
        for key, v in m.items():
            args = key if multi else (key,)
            T.check(o.get_cache_or(*args, lambda: T.fail('recomputed')) is v, 'value lost', history=hist)
    T.sig(hist)


def models(rng, T):
    """Predefined cosmologies are loaded once and stay the same object."""
    n = pick(rng, ['tng', 'eagle'])
    a = predefined[n]
    T.check(isinstance(a, LambdaCDM) and predefined[n] is a, 'same object')
    T.check(predefined['tng'] is not predefined['eagle'], 'models mixed')
    before = set(predefined.cache)
    for _ in range(2):
        try:
            predefined['no such model']
        except Exception:
            T.ev('missing')
        else:
            T.fail('missing model returned')
    T.eq(set(predefined.cache), before, 'a failed load left an entry')
    r = predefined.to_simple_repr()
    T.eq(set(r['models']), before, 'description lists the models')
    for k in before:
        T.eq(r['models'][k], predefined[k].to_simple_repr(), 'description of a model')
        T.eq([p['name'] for p in r['models'][k]['params']], [p.name for p in predefined[k].params], 'parameters')
    b = predefined.load(n)
    T.check(b is not a and b.to_simple_repr() == a.to_simple_repr(), 'load gives a new, equal object')
    c = LambdaCDM.get_predefined(n) if hasattr(LambdaCDM, 'get_predefined') else a
    T.check(c is a, 'named look-up')
    T.sig(n, T.case % 50)


# ---------------------------------------------------------------- logs

def captured(fn):
    f = io.StringIO()
    with contextlib.redirect_stdout(f):
        r = fn()
    return r, f.getvalue()


def logs(rng, T):
    """Exactly the message, when and only when verbose; stamped with the local time."""
    tz = pick(rng, ['UTC', 'XYZ-9', 'ABC+11', 'QQQ+3:30'])
    old = os.environ.get('TZ')
    os.environ['TZ'] = tz
    time.tzset()
    try:
        _logs(rng, T)
    finally:
        os.environ.pop('TZ')
        if old is not None:
            os.environ['TZ'] = old
        time.tzset()


def local_stamp(s, fmt, t0, t1):
    """s is the local time of a moment between t0 and t1."""
    return s in {time.strftime(fmt, time.localtime(t)) for t in range(int(t0 - .1), int(t1 + .1) + 1)}      # the clock of time() may lag a tick behind


def _logs(rng, T):
    n = int(rng.integers(1, 4))
    Sub = type('Model_' + pick(rng, 'abc'), (abc.HasLog,), {})
    objs, on = [], []
    for i in range(n):
        kw, v = {}, False
        if chance(rng, .6):
            v = kw['verbose'] = chance(rng, .5)
        nm = Sub.__name__
        if chance(rng, .6):
            nm = kw['name'] = pick(rng, ['x', 'my model', '', '[a]'])
        o = Sub(**kw)
        T.eq(o.name, nm, 'name')
        objs.append((o, nm))
        on.append(v)
    hist = []
    for _ in range(int(rng.integers(3, 25))):
        i = int(rng.integers(n))
        o, nm = objs[i]
        k = pick(rng, ['log'] * 5 + ['on', 'off'])
        hist.append((i, k))
        if k == 'on':
            o.verbose_on()
            on[i] = True
        elif k == 'off':
            o.verbose_off()
            on[i] = False
        else:
            args = tuple(pick(rng, ['hello', 'a b', 1, 2.5, None, [1, 2], '', 'x\ny']) for _ in range(int(rng.integers(1, 4))))
            kw = {}
            if chance(rng, .4):
                kw['end'] = pick(rng, ['\n', '', '!\n'])
            if chance(rng, .3):
                kw['flush'] = chance(rng, .5)
            named = True
            if chance(rng, .4):
                named = kw['named'] = chance(rng, .5)
            timed = False
            if chance(rng, .4):
                timed = kw['timed'] = chance(rng, .5)
                if timed and chance(rng, .5):
                    kw['time_fmt'] = pick(rng, ['%Y', '%H:%M:%S', '%d.%m.%y %H', '%j'])
            sep = ''
            t0 = time.time()
            r, out = captured(lambda: o.log(*args, **kw))
            t1 = time.time()
            msg = sep.join(str(a) for a in args)
            T.note(verbose=on[i], args=[str(a) for a in args], kw=kw)
            T.check(r is o, 'log returns the object')
            if not on[i]:
                T.eq(out, '', 'printed although silent', history=hist)
                T.ev('silent')
            else:
                stamp = (r'\[[\d.: ]+\]' if 'time_fmt' in kw else r'\[\d{4}-\d\d-\d\d \d\d:\d\d:\d\d\]') if timed else ''
                pre = (re.escape(f'[{nm}]') if named else '') + stamp
                want = (pre + ' ' if pre else '') + re.escape(msg + kw.get('end', '\n'))
                T.check(re.fullmatch(want, out), 'printed message', got=out, want=want)
                if timed:
                    got = out[len(f'[{nm}]') if named else 0:]
                    T.check(local_stamp(got[1:got.index(']')], kw.get('time_fmt', '%Y-%m-%d %H:%M:%S'), t0, t1), 'time stamp is not the local time', got=got, now=time.localtime(t0), zone=os.environ['TZ'])
                    T.ev('stamped')
                T.ev('printed')
            # with a separator between several values
            if on[i] and chance(rng, .3):
                _, out = captured(lambda: o.log('p', 'q', 7, sep=', ', named=False))
                T.eq(out, 'p, q, 7\n', 'separator')
        T.eq(o.verbose, on[i], 'verbosity', history=hist)
        T.check(all(p.verbose == q for (p, _), q in zip(objs, on)), 'another object changed', history=hist)
    T.sig(hist, n)


# ---------------------------------------------------------------- names, values, parameters

def values(rng, T):
    """HasName and HasValue."""
    nm = pick(rng, [None, 'x', '', 3, 2.5])
    o = abc.HasName(name=nm)
    T.eq(o.name, 'HasName' if nm is None else str(nm), 'name')
    Sub = type('Sub7', (abc.HasName,), {})
    T.eq(Sub().name, 'Sub7', 'default name')
    shape = pick(rng, [(), (3,), (2, 2), (0,)])
    a = rng.normal(size=shape).astype(pick(rng, ['f8', 'f4', 'i8']))
    a0 = a.copy()
    cp = pick(rng, [None, True, False])
    v = abc.HasValue(a) if cp is None else abc.HasValue(a, copy=cp)
    T.eq(v.value, a0, 'value')
    T.eq(v.value.dtype, a.dtype, 'dtype')
    if a.size:
        T.eq(bool(np.shares_memory(v.value, a)), cp is False, 'ownership')
    keep = v.value
    new = pick(rng, [1, rng.normal(size=shape)])
    v.set_value(new)
    T.check(v.value is keep, 'set_value keeps the array')
    want = np.empty_like(a0)
    want[...] = new
    T.eq(v.value, want, 'new value')
    T.eq(v.value.dtype, a0.dtype, 'dtype after setting')
    # another shape: accepted exactly when it broadcasts to the array
    sh2 = pick(rng, [tuple(shape)[::-1], (a.size,), (a.size + 1,), (1,) * len(tuple(shape)), tuple(shape)[1:], (2,) + tuple(shape)])
    new2 = rng.normal(size=sh2)
    try:
        want2 = np.array(want)
        want2[...] = new2
        ok = True
    except ValueError:
        ok, want2 = False, want
    try:
        v.set_value(new2)
    except Exception:
        T.check(not ok, 'a value that fits was refused', shape=shape, new=sh2)
        T.ev('misfit')
    else:
        T.check(ok, 'a value of another shape was accepted', shape=shape, new=sh2)
    T.check(v.value is keep, 'set_value keeps the array')
    T.eq(v.value, want2, 'value after one of another shape', shape=shape, new=sh2)
    want = want2
    if cp is not False:
        T.eq(a, a0, 'source of a copied value')
    else:
        T.eq(a, want, 'shared value')
    T.eq(abc.HasValue([1, 2, 3], copy=False).value, np.array([1, 2, 3]), 'a list')
    T.ev('value')
    T.sig(nm, a0, cp, new)


def params(rng, T):
    """Parameter lists keep order and look-ups through any replacement."""
    names = ['a', 'b', 'c', 'omega', 'h', '']
    n = int(rng.integers(1, 7))
    used = [names[i] for i in rng.permutation(len(names))[:n]]
    arrs = [rng.normal(size=pick(rng, [(), (2,), (2, 2), (1,), (0,)])) for _ in used]
    ps = [Param(v, name=k) for k, v in zip(used, arrs)]
    src = ps if chance(rng, .5) else iter(ps)
    pl = ParamList(src)
    if src is ps and chance(rng, .5):
        extra = Param(1., name='zz')
        src.append(extra)
        T.eq(len(pl), n, 'list is its own')
        src.pop()
    model = list(ps)
    vals = [np.array(v) for v in arrs]

    def observe(what):
        T.eq(len(pl), len(model), f'length {what}')
        T.check(all(a is b for a, b in zip(pl, model)), f'order {what}')
        for i, p in enumerate(model):
            T.check(pl[i] is p and pl[p.name] is p, f'look-up {what}', name=p.name)
            T.eq(p.value, vals[i], f'value {what}')
        T.check(isinstance(pl.values, tuple), 'values')
        T.eq(list(pl.values), vals, f'values {what}')
        want = [{'name': p.name, 'value': v.tolist()} for p, v in zip(model, vals)]
        T.eq(pl.to_simple_repr(), want, f'description {what}')
        T.eq(json.loads(pl.to_json()), want, 'JSON')
        T.eq(yaml.safe_load(pl.to_yaml()), want, 'YAML')
        T.eq(ast.literal_eval(repr(pl)), want, 'printed')
        T.eq([p.to_simple_repr() for p in pl], want, 'single parameters')
        known = {p.name for p in model}
        for k in names + ['nope']:
            if k not in known:
                T.raises(KeyError, lambda: pl[k], f'absent name {what}', name=k)
        T.ev('observed')
    observe('after construction')
    hist = []
    for _ in range(int(rng.integers(1, 8))):
        k = pick(rng, ['set', 'vals', 'one'])
        i = int(rng.integers(n))
        if k == 'set':
            free = [q for q in names + ['new'] if q not in {p.name for j, p in enumerate(model) if j != i}]
            v = rng.normal()
            p = Param(v, name=pick(rng, free))
            old = model[i]
            pl[i] = p
            model[i] = p
            vals[i] = np.array(v)
            T.ev('replaced')
            hist.append(('set', i, p.name))
        elif k == 'vals':
            new = [rng.normal(size=v.shape) for v in vals]
            keep = list(pl.values)
            pl.set_values(new)
            T.check(all(a is b for a, b in zip(keep, pl.values)), 'arrays are kept')
            vals = [np.array(v) for v in new]
            hist.append(('vals',))
        else:
            v = rng.normal(size=vals[i].shape)
            pl[i].set_value(v)
            vals[i] = np.array(v)
            hist.append(('one', i))
        observe(f'after {hist}')
    try:
        pl.set_values([0.] * (n + 1))
    except AssertionError:
        observe('after a refused assignment')
    else:
        T.fail('wrong number of values accepted')
    T.sig(used, hist)


# ---------------------------------------------------------------- descriptions

def plain(rng, depth=2):
    k = int(rng.integers(0, 9 if depth else 6))
    if k == 0:
        return int(rng.integers(-1000, 1000))
    if k == 1:
        return float(rng.normal())
    if k == 2:
        return pick(rng, ['', 'text', "it's", 'a: b', 'x\ny', 'null', '1', 'é'])
    if k == 3:
        return None
    if k == 4:
        return chance(rng, .5)
    if k == 5:
        return pick(rng, [[], {}])
    if k in (6, 7):
        return [plain(rng, depth - 1) for _ in range(int(rng.integers(0, 4)))]
    return {pick(rng, 'pqrst'): plain(rng, depth - 1) for _ in range(int(rng.integers(0, 4)))}


ATTRS = ['alpha', 'beta', '_hidden', 'n', 'value', 'zeta', 'name']


def described(rng, T, depth=2):
    """A class on one of the description bases and its expected description."""
    lst = chance(rng, .4)
    base = abc.HasListRepr if lst else abc.HasDictRepr
    keys = tuple(ATTRS[i] for i in rng.permutation(len(ATTRS))[:int(rng.integers(0, 5))])
    ns = {'repr_attr_keys': keys}
    typ = not lst
    if chance(rng, .4):
        typ = ns['repr_enable_type_string'] = chance(rng, .5)
    prop = pick(rng, [None, *keys])
    vals = {}
    for k in ATTRS:
        if depth and k in keys and chance(rng, .35):
            vals[k] = described(rng, T, depth - 1)
        else:
            v = plain(rng)
            vals[k] = (v, v)
    if prop is not None:
        ns[prop] = property(lambda self, v=vals[prop][0]: v)
    name = 'C' + pick(rng, 'XYZ')
    cls = type(name, (base,), ns)
    if chance(rng, .3):         # listing is inherited
        name = name + 'Child'
        cls = type(name, (cls,), {})
    o = cls()
    for k, (v, _) in vals.items():
        if k != prop:
            setattr(o, k, v)
    want = [vals[k][1] for k in keys]
    if lst:
        want = tuple(([name] if typ else []) + want)
    else:
        want = ({'type': name} if typ else {}) | dict(zip(keys, want))
    return o, want


def listed(v):
    if isinstance(v, (list, tuple)):
        return [listed(x) for x in v]
    if isinstance(v, dict):
        return {k: listed(x) for k, x in v.items()}
    return v


def descriptions(rng, T):
    """Printed, JSON, YAML and plain forms show exactly the listed attributes."""
    o, want = described(rng, T)
    T.note(want=want)
    state = dict(vars(o))
    for _ in range(2):
        got = o.to_simple_repr()
        T.eq(got, want, 'plain description')
        T.check(type(got) is type(want), 'type of the description')
        T.eq(ast.literal_eval(repr(o)), want, 'printed form')
        T.eq(str(o), repr(o), 'str')
        T.eq(json.loads(o.to_json()), listed(want), 'JSON form')
        T.eq(json.loads(o.to_json(indent=3)), listed(want), 'indented JSON form')
        if o.to_json(indent=3).count('\n'):
            T.ev('indented')
        T.check(listed(yaml.unsafe_load(o.to_yaml())) == listed(want), 'YAML form')
        T.eq(listed(yaml.unsafe_load(o.to_yaml(indent=6, sort_keys=False))), listed(want), 'YAML form with options')
    T.check(vars(o) == state or all(vars(o)[k] is v for k, v in state.items()), 'description changed the object')
    if isinstance(got, dict) and got:
        got['extra'] = 1
        got.pop(next(iter(want)))
        T.eq(o.to_simple_repr(), want, 'description is a fresh object')
    d = DataDict({'k': o, 'v': 1})
    T.eq(d.to_simple_repr(), {'k': want, 'v': 1}, 'nested in a dictionary')
    T.ev('described')
    T.sig(want)


class _Lib:
    """Instances of library classes with the attributes their description lists."""

    @staticmethod
    def make(rng):
        from pyhipp import stats
        from pyhipp.core import dataproc as dp
        from pyhipp.core.arrays import Array, DType
        from pyhipp.field.cubic_box import Mesh
        from pyhipp.field.neighbor.kd_tree import PE
        from pyhipp.stats import reduction as R, kernel as K
        from pyhipp.stats.binning import EqualSpaceBins, BiSearchBins, BinnedData
        from pyhipp.stats.preprocessing import Standardize
        from pyhipp.stats.summary import SummaryFloatArray1D
        from pyhipp.group_theory.point_group import Group
        from pyhipp.io.h5.utils import KeyList
        x = np.cumsum(rng.random(int(rng.integers(2, 6))) + .1)
        L, n = float(rng.random() + .5), int(rng.integers(1, 9))
        k = int(rng.integers(15))
        if k == 0:
            return Mesh.new(n, L), {'type': 'Mesh', 'n_grids': n, 'l_box': L, 'l_grid': L / n}
        if k == 1:
            return PE(rng.random((5, 3)) * L, l_box=L, n_workers=2), {'type': 'PE', 'l_box': L, 'n_workers': 2}
        if k == 2:
            r = pick(rng, [R.Count, R.Sum, R.Mean, R.StdDev])
            f = float(rng.normal())
            return r(empty_fill=f), {'type': r.__name__, 'key': r.key, 'empty_fill': np.array(f)}
        if k == 3:
            a = rng.normal(size=int(rng.integers(1, 30)))
            w = {'type': 'SummaryFloatArray1D', 'size': len(a), 'mean': a.mean(), 'stddev': a.std(), 'median': np.median(a)}
            return SummaryFloatArray1D(a), w
        if k == 4:
            s = float(rng.random() + .1)
            return K.Gaussian(sigma=s), {'type': 'Gaussian', 'sigma': s}
        if k == 5:
            return K.Tophat(radius=L), {'type': 'Tophat', 'radius': L}
        if k == 6:
            return EqualSpaceBins((0., L), n), {'type': 'EqualSpaceBins', 'x_range': (0., L), 'n_bins': n, 'x_span': L, 'x_step': L / n}
        if k == 7:
            return BiSearchBins(x), {'type': 'BiSearchBins', 'x_edges': x, 'n_bins': len(x) - 1, 'x_span': x[-1] - x[0], 'x_step_mean': np.diff(x).mean()}
        if k == 8:
            b = BinnedData(EqualSpaceBins((0., L), n))
            b.add(rng.random(20))
            return b, {'type': 'BinnedData', 'bins': b.bins.to_simple_repr(), 'data': b.data}
        if k == 9:
            g = Group.create(pick(rng, ['2d', '3d']))
            return g, [{'mat': o.mat} for o in g]
        if k == 10:
            u = [str(q) for q in rng.permutation(list('abcd'))[:3]]
            return KeyList(u), tuple(u)
        if k == 11:
            g = dp.Grid1d(x)
            return g, {'type': 'Grid1d', 'locs': x}
        if k == 12:
            d = np.dtype(pick(rng, ['f4', 'i8', '>f8', '?']))
            return DType(d), {'type': 'DType', 'size': d.itemsize, 'alignment': d.alignment, 'byte_order': d.byteorder, '_impl': repr(d)}
        if k == 13:
            return Array(x), {'type': 'Array', 'n_dims': 1, 'shape': x.shape, 'dtype': str(x.dtype), 'data': x}
        s = Standardize(np.column_stack([x, x * x]))
        return s, {'type': 'Standardize', 'mean': s.mean, 'sd': s.sd, 'sd_lb': s.sd_lb}


def library(rng, T):
    """Descriptions of the library's own classes."""
    o, want = _Lib.make(rng)
    T.note(cls=type(o).__name__)
    got = o.to_simple_repr()
    if isinstance(want, dict):
        for k, v in want.items():
            T.check(k in got, f'{k!r} is missing in the description', got=list(got))
            g = got[k]
            if isinstance(v, float) and not isinstance(g, str):
                T.close(g, v, f'description of {k!r}', rtol=1e-12)
            elif isinstance(v, dict) or isinstance(v, str):
                T.eq(g, v, f'description of {k!r}')
            else:
                T.eq(np.asarray(g), np.asarray(v), f'description of {k!r}')
    else:
        T.eq(got, want, 'description')
    s = repr(o)
    T.check(isinstance(s, str) and s, 'printed form')
    if isinstance(want, dict):
        T.check(all(repr(k) in s for k in want), 'printed form lists the attributes', got=s)
    T.state('classes', type(o).__name__)
    T.ev('library')
    T.sig(type(o).__name__, s)


MONITORS = [
    Monitor('cache', cache, 1200, 20000, need={'hit': 1000, 'miss': 1000, 'failing': 300, 'put': 100}),
    Monitor('models', models, 20, 100, need={'missing': 20}),
    Monitor('logs', logs, 800, 10000, need={'printed': 300, 'silent': 300}),
    Monitor('values', values, 600, 5000, need={'value': 200}),
    Monitor('params', params, 500, 5000, need={'observed': 500, 'replaced': 100}),
    Monitor('descriptions', descriptions, 800, 10000, need={'described': 300}),
    Monitor('library', library, 600, 5000, need={'library': 200}),
]
