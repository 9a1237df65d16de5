"""C30: bootstrap resampling and binned volume densities."""
import numpy as np
from pyhipp import stats
from pyhipp.core import DataDict
from pyhipp.stats import Rng, RandomNoise
from pyhipp.stats.sampling import Bootstrap
from pyhipp.stats.stacking import Stack
from pyhipp.stats.binning import Bin, Hist1D
from pyhipp.astro.stats.lss import BinnedVolumeDensity
from ..core import Monitor
from ..gen import pick, chance, Frozen

RULE = ('statistics functions that record every resampled row (each row carries its identity in every column) for several data sets, caps, seeds and generators handed over; '
        'binned densities against a from-scratch histogram of the recorded draws. Identity is (columns, sizes, seed).')


def table(rng, which, n, ncol):
    """Columns whose values identify their row."""
    out = {}
    for c in range(ncol):
        ids = np.arange(n) + 1000 * which + 100000 * c
        k = int(rng.integers(4))
        if k == 0:
            v = ids
        elif k == 1:
            v = ids + .25
        elif k == 2:
            v = np.stack([ids, -ids], axis=-1).astype('f4')
        else:
            v = ids.astype(str)
        out[f'd{which}_c{c}'] = v
    return out


def rows_of(v, which, c):
    k = v.dtype.kind
    if k == 'U':
        v = v.astype(np.int64)
    elif k == 'f':
        v = np.floor(v[:, 0] if v.ndim == 2 else v).astype(np.int64)
    return v - 1000 * which - 100000 * c


def rows(rng, T):
    """Whole rows, shared within a data set, in the stated number."""
    nd = int(rng.integers(1, 4))
    sizes = [int(pick(rng, [1, 2, 5, 17, 60])) for _ in range(nd)]
    ncols = [int(rng.integers(1, 4)) for _ in range(nd)]
    dsets = [table(rng, i, n, c) for i, (n, c) in enumerate(zip(sizes, ncols))]
    frozen = Frozen(**{k: v for d in dsets for k, v in d.items()})
    if chance(rng, .3):
        dsets = [DataDict(d) for d in dsets]
    keys = [list(d.keys()) for d in dsets]
    caps = None
    if chance(rng, .5):
        caps = [int(pick(rng, [0 if chance(rng, .2) else 1, 3, 17, 1000])) for _ in range(nd)]
    want_n = [n if caps is None else min(n, m) for n, m in zip(sizes, caps or sizes)]
    n_re = int(pick(rng, [1, 2, 5, 10]))
    seed = int(rng.integers(2**31))
    how = pick(rng, ['int', 'np', 'Rng', 'Generator'])
    src = {'int': lambda: seed, 'np': lambda: np.int64(seed), 'Rng': lambda: Rng(seed), 'Generator': lambda: np.random.default_rng(seed)}[how]()
    kw_fn = {'opt': object(), 'n_call': 7} if chance(rng, .5) else None
    it = pick(rng, ['list', 'tuple', 'gen'])
    given = {'list': lambda: dsets, 'tuple': lambda: tuple(dsets), 'gen': lambda: (d for d in dsets)}[it]()
    keep = chance(rng, .5)
    seen = []

    def fn(**kw):
        seen.append(kw)
        first = kw[keys[0][0]]
        m = float(len(first))
        r = rows_of(first, 0, 0)
        o = {'a': float(r.sum()), 'b': np.array([float(r.sum()), m, float(len(seen))]), 'extra': len(seen), 'tag': 'x'}
        return {**o, **own} if last else {**own, **o}
    # a statistic may itself report a quantity under a name the summary uses
    own = {k: -77. for k in ('a_sd', 'b_sd', 'a_samples') if chance(rng, .25)}
    last = chance(rng, .5)
    kw = {}
    if n_re != 10 or chance(rng, .5):
        kw['n_resample'] = n_re
    if keep or chance(rng, .5):
        kw['keep_samples'] = keep
    if caps is not None:
        kw['dsets_max_sizes'] = pick(rng, [caps, tuple(caps), iter(caps)])
    T.note(sizes=sizes, caps=caps, n_re=n_re, how=how, it=it, keep=keep)
    keys_out = pick(rng, [('a', 'b'), ['b'], ('a',), ()])
    want_keys = list(keys_out)
    if chance(rng, .3):
        keys_out = iter(keys_out)
    out = Bootstrap.resampled_call(fn, given, keys_out, stats_kw=kw_fn, rng=src, **kw)
    frozen.check(T, 'by resampling')
    T.eq(len(seen), n_re, 'number of resamplings')
    all_rows = []
    g = np.random.default_rng(seed)
    for kwargs in seen:
        T.eq(set(kwargs), {k for ks in keys for k in ks} | set(kw_fn or ()), 'arguments of the statistic')
        for k, v in (kw_fn or {}).items():
            T.check(kwargs[k] is v, 'extra argument')
        for i, ks in enumerate(keys):
            ids = None
            for c, k in enumerate(ks):
                v, o = kwargs[k], dsets[i][k]
                T.check(isinstance(v, np.ndarray) and v.dtype == o.dtype and v.shape[1:] == o.shape[1:], 'column type', key=k)
                T.eq(len(v), want_n[i], 'number of rows', key=k)
                r = rows_of(v, i, c)
                T.check(np.all((r >= 0) & (r < sizes[i])), 'rows come from elsewhere', rows=r)
                T.eq(v, o[r], 'row contents')
                if ids is None:
                    ids = r
                T.eq(r, ids, 'columns of one data set use different rows')
                T.check(not np.shares_memory(v, o), 'resampled column is the original')
                T.ev('column')
            T.eq(ids, g.choice(sizes[i], size=want_n[i]), 'rows are not those drawn with this seed')
            all_rows.append(ids)
    if how in ('Rng', 'Generator'):
        gen = src._np_rng if how == 'Rng' else src
        T.eq(gen.bit_generator.state, g.bit_generator.state, 'generator passed in is advanced')
        T.ev('advanced')
    recs = []
    for j, kwargs in enumerate(seen):
        r = rows_of(kwargs[keys[0][0]], 0, 0)
        recs.append({'a': float(r.sum()), 'b': np.array([float(r.sum()), float(len(r)), j + 1.])})
    names = []
    for k in want_keys:
        v = np.array([r[k] for r in recs])
        T.close(out[k], v.mean(0), f'mean of {k}', rtol=1e-12, atol=1e-9)
        T.close(out[f'{k}_sd'], np.sqrt(((v - v.mean(0))**2).mean(0)), f'spread of {k}', rtol=1e-9, atol=1e-7)
        names += [k, f'{k}_sd']
        if keep:
            T.eq(out[f'{k}_samples'], v, 'kept samples')
            names.append(f'{k}_samples')
            T.ev('samples')
    T.eq(out['extra'], 1, 'other results come from the first resampling')
    T.eq(out['tag'], 'x', 'other results')
    for k in ('a', 'b'):
        if k not in want_keys:
            T.eq(out[k], recs[0][k], 'result not summarised comes from the first resampling')
    T.eq(set(out.keys()), set(names) | {'a', 'b', 'extra', 'tag'} | set(own), 'keys of the summary')
    for k in own:
        if k not in names:
            T.eq(out[k], -77., 'result of the statistic under a name of the summary')
        else:
            T.ev('name_clash')
    T.ev('resampled', n_re)
    T.sig(sizes, ncols, caps, seed, n_re)


def draws(rng, T):
    """With replacement, uniform, different from one resampling to the next."""
    n, n_re = int(pick(rng, [4, 9])), 400
    x = np.arange(n)
    seen = []
    Bootstrap.resampled_call(lambda x: seen.append(x.copy()) or {'m': 0.}, [{'x': x}], ['m'], n_resample=n_re, rng=int(rng.integers(2**31)))
    s = np.array(seen)
    T.check(any(len(set(r)) < n for r in seen), 'no repetition in any draw')
    T.check(len({r.tobytes() for r in s}) > n_re // 3, 'the same draw over and over', distinct=len({r.tobytes() for r in s}))
    cnt = np.bincount(s.ravel(), minlength=n)
    chi = ((cnt - n_re)**2 / n_re).sum()
    T.check(chi < n - 1 + 8 * np.sqrt(2. * n) + 10, 'draws are not uniform', chi2=chi, counts=cnt)
    pos = [np.bincount(s[:, i], minlength=n) for i in (0, n - 1)]
    for c in pos:
        e = n_re / n
        T.check(((c - e)**2 / e).sum() < n - 1 + 8 * np.sqrt(2. * n) + 10, 'draws at one position are not uniform', counts=c)
    T.ev('uniform')
    T.sig(n, s[0])


def stack(rng, T):
    """Mean and standard deviation over the first axis."""
    a = rng.normal(size=pick(rng, [(1,), (7,), (5, 3), (4, 2, 3)])) * 10.**rng.integers(-3, 4)
    f = Frozen(a=a)
    m, s = Stack.mean_and_sd(a if chance(rng, .5) else a.tolist())
    f.check(T)
    T.close(m, a.sum(0) / len(a), 'mean', rtol=1e-10, atol=1e-12)
    T.close(s, np.sqrt(((a - a.mean(0))**2).sum(0) / len(a)), 'standard deviation', rtol=1e-9, atol=1e-10)
    T.ev('stack')
    T.sig(a)


def noise(rng, T):
    """Gaussian noise of the stated width, additive or in log space."""
    n, rep = int(pick(rng, [0, 1, 5, 300])), int(pick(rng, [1, 1, 2, 6, 9, 40]))
    x = rng.random(n) * 5 + .1
    sig, lg = float(pick(rng, [0., .1, 2.])), chance(rng, .5)
    seed = int(rng.integers(2**31))
    src = pick(rng, [seed, Rng(seed)])
    nz = RandomNoise(sig, noise_in_lg=lg, rng=src)
    f = Frozen(x=x)
    g = np.random.default_rng(seed)
    for _ in range(int(rng.integers(1, 4))):
        out = nz.add_to(x if chance(rng, .7) else x.tolist(), n_repeats=rep) if rep != 1 or chance(rng, .5) else nz.add_to(x)
        d = g.standard_normal((rep, n)) * sig
        want = x * 10**d if lg else x + d
        T.close(out, want[0] if rep == 1 else want, 'noisy values', rtol=1e-12)
        T.ev('noise')
    f.check(T)
    if isinstance(src, Rng):
        T.eq(src._np_rng.bit_generator.state, g.bit_generator.state, 'generator passed in is used')
    T.sig(x, sig, lg, rep, seed)


def histogram(x, edges, w):
    """Count by comparison with every edge (last bin closed)."""
    h = np.zeros(len(edges) - 1, float if w is not None else int)
    for i in range(len(h)):
        m = (x >= edges[i]) & ((x < edges[i + 1]) | ((i == len(h) - 1) & (x == edges[i + 1])))
        h[i] = m.sum() if w is None else w[m].sum()
    return h


def density(rng, T):
    """Number density per volume and bin width in overlapping bins."""
    n = int(pick(rng, [1, 3, 30, 200]))
    x = rng.normal(size=n) * 2
    if chance(rng, .3):
        x = np.round(x * 2) / 2
    sub = int(pick(rng, [1, 2, 3, 5]))
    explicit = chance(rng, .4)
    rg = None
    if explicit:
        nb = int(rng.integers(1, 8))
        edges0 = np.cumsum(rng.random(nb + 1) + .1) * 4 / (nb + 1) - 2
        bins = edges0 if chance(rng, .7) else list(edges0)
        edges = np.concatenate([np.concatenate([np.linspace(a, b, sub, endpoint=False) for a, b in zip(edges0[:-1], edges0[1:])]), edges0[-1:]])
    else:
        bins = int(rng.integers(1, 9))
        p = None
        lo, hi = x.min(), x.max()
        if n < 3 or chance(rng, .6):
            a = float(rng.normal()) - 2
            rg = (a, a + float(rng.random()) * 5 + .5)
            lo, hi = rg
        if n > 2 and chance(rng, .4):
            p = (.1, .85)
            q = np.quantile(x, p)
            if rg is None:
                lo, hi = q
            else:
                lo, hi = max(lo, q[0]), min(hi, q[1])
        if not hi - lo > 1e-9:
            T.ev('skipped')
            return
        edges = np.linspace(lo, hi, bins * sub + 1)
    w = rng.random(n) + .1 if chance(rng, .5) else None
    vol = float(pick(rng, [1., 100., .25, 7]))
    nre = int(pick(rng, [1, 3, 10]))
    seed, nseed = int(rng.integers(2**31)), int(rng.integers(2**31))
    sig = float(pick(rng, [0., .3]))
    kw = {}
    if chance(rng, .4):
        kw['noise'] = RandomNoise(sig, rng=nseed)
    pad = 1e-8
    if chance(rng, .4):
        pad = float(pick(rng, [1e-3, 10.]))
        kw['policy'] = BinnedVolumeDensity.Policy(lg_y_pad=pad)
    cap = None
    if chance(rng, .3):
        cap = int(pick(rng, [1, 10, 10**6]))
        kw['dsets_max_sizes'] = [cap]
    if not explicit:
        if rg is not None:
            kw['range'] = rg
        if p is not None:
            kw['p_range'] = p
    T.note(n=n, bins=bins, sub=sub, kw={k: str(v) for k, v in kw.items()}, w=w is not None, vol=vol, nre=nre)
    sel = (x >= edges[0]) & (x < edges[-1])
    if not explicit and (edges[0] != lo or edges[-1] != hi):
        sel = (x >= lo) & (x < hi)
    fr = Frozen(x=x, **({} if w is None else {'w': w}))
    out = BinnedVolumeDensity.from_raw(x, volume=vol, bins=bins, sub_bins=sub, weights=w, n_bootstrap=nre, rng=seed, **kw)
    fr.check(T, 'by the density')
    xs, ws = x[sel], None if w is None else w[sel]
    g, gn = np.random.default_rng(seed), np.random.default_rng(nseed)
    H = []
    for _ in range(nre):
        m = len(xs) if cap is None else min(len(xs), cap)
        ids = g.choice(len(xs), size=m)
        xr = xs[ids]
        if 'noise' in kw:
            xr = xr + gn.standard_normal((1, m))[0] * sig
        wr = None if ws is None else ws[ids]
        H.append(histogram(xr, edges, wr))
    sub_h = np.array(H, dtype=float)
    # values within an ulp of an edge may be counted on either side by the histogram
    T.close(out['sub_e'], edges, 'sub-bin edges', rtol=1e-12, atol=1e-12)
    nb = len(edges) - sub
    dx = np.array([edges[i + sub] - edges[i] for i in range(nb)])
    T.close(out['dx'], dx, 'bin widths', rtol=1e-9, atol=1e-12)
    T.close(out['x'], np.array([(edges[i + sub] + edges[i]) / 2 for i in range(nb)]), 'bin centres', rtol=1e-9, atol=1e-9)
    h = np.array([[r[i:i + sub].sum() for i in range(nb)] for r in sub_h])
    ambiguous = any(np.abs(xr - e).min(initial=9.) < 1e-9 for xr in [xs] for e in edges[1:-1]) and not explicit
    if ambiguous:
        T.ev('on_edge')
        T.close(out['h_samples'].sum(1) if sub == 1 else out['h_samples'].sum(1) * 0, h.sum(1) if sub == 1 else h.sum(1) * 0, 'total count', rtol=1e-9)
        return
    T.close(out['h_samples'], h, 'counts in the bins', rtol=1e-9, atol=1e-12)
    y = h / (vol * dx)
    T.close(out['y_samples'], y, 'density', rtol=1e-9, atol=1e-14)
    ly = np.log10(np.where(y < pad, pad, y))
    T.close(out['lg_y_samples'], ly, 'log density', rtol=1e-9, atol=1e-9)
    for k, v in (('h', h), ('y', y), ('lg_y', ly)):
        T.close(out[k], v.mean(0), f'mean {k}', rtol=1e-9, atol=1e-9)
        T.close(out[k + '_sd'], v.std(0), f'spread {k}', rtol=1e-6, atol=1e-7)
    T.ev('density')
    T.ev('objects', len(xs))
    T.sig(x, edges, sub, seed, vol)


MONITORS = [
    Monitor('rows', rows, 400, 8000, need={'resampled': 500, 'column': 1000, 'samples': 100, 'advanced': 50}),
    Monitor('draws', draws, 20, 300, need={'uniform': 15}),
    Monitor('stack', stack, 200, 4000, need={'stack': 100}),
    Monitor('noise', noise, 300, 6000, need={'noise': 300}),
    Monitor('density', density, 500, 8000, need={'density': 150, 'objects': 1000}),
]
