"""C07: configuration files and spreadsheets."""
import contextlib, io, os
from pathlib import Path
import numpy as np
import pandas as pd
import yaml
from pyhipp.core import DataDict, DataTable
from pyhipp.io.yaml import ConfigFileParser
from pyhipp.io.excel import Excel
from ..core import Monitor, same
from ..gen import pick, chance, array

RULE = ('random nested YAML documents with keys repeated at several levels are queried along random node paths against a reference walk; nested '
        'dictionaries of frames are written to a recording spreadsheet writer and read back through a stand-in reader, compared cell by cell. '
        'Identity is the document structure and the query.')
ASSUMPTIONS = ['no spreadsheet engine is installed: the file format itself is replaced by a recording writer and an in-memory reader']
K = ['a', 'b', 'c', 'path', 'seed', 'n', 'run']
V = [1, 2.5, 'text', None, True, [1, 2], '/data/x', '', {'z': 1}]


def doc(rng, depth=0):
    out = {}
    for k in rng.permutation(K)[:int(rng.integers(1, 6))]:
        out[str(k)] = doc(rng, depth + 1) if depth < 4 and chance(rng, .45) else pick(rng, V)
    return out


def config(rng, T):
    """Parsed values come from the deepest node that defines them."""
    d = doc(rng)
    p = f'c{T.case}.yaml'
    with open(p, 'w') as f:
        yaml.dump(d, f, default_flow_style=pick(rng, [None, True, False]))
    path, n = [], d
    while chance(rng, .75):
        ks = [k for k, v in n.items() if isinstance(v, dict)]
        if not ks:
            break
        path.append(pick(rng, ks))
        n = n[path[-1]]
    cut = int(rng.integers(len(path) + 1))
    init, nested = path[:cut], path[cut:]
    levels = []
    n = d
    for i, k in enumerate([None] + path):
        if k is not None:
            n = n[k]
        if i >= cut:
            levels.append(n)
    visible = {}
    for lv in levels:
        visible.update(lv)
    want = [str(k) for k in rng.permutation(K)[:int(rng.integers(0, 6))]]
    if chance(rng, .6):
        want = [k for k in want if k in visible]
    T.note(init=init, nested=nested, keys=want)
    verbose = chance(rng, .3)
    seq = pick(rng, [list, tuple])
    q = ConfigFileParser(pick(rng, [p, Path(p)]), seq(init), seq(nested), verbose=verbose)
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        missing = [k for k in want if k not in visible]
        if missing:
            T.raises(KeyError, lambda: q.get(want), 'an undefined name must raise KeyError', missing=missing)
            T.ev('missing')
        else:
            got = q.get(want)
            T.check(isinstance(got, DataDict) and sorted(got) == sorted(set(want)), 'returned names', got=list(got), want=want)
            for k in want:
                T.check(got[k] == visible[k] and type(got[k]) is type(visible[k]), 'value is not the one of the deepest node', k=k,
                        got=got[k], want=visible[k])
            again = q.get(want)
            T.check(dict(again.items()) == dict(got.items()), 'a second query differs')
            T.ev('parsed')
            T.state('depth', (len(init), len(nested), sum(k in lv for lv in levels for k in want)))
    T.check(bool(buf.getvalue()) == verbose, 'log output appears exactly when verbose', out=buf.getvalue())
    bad = ConfigFileParser(p, init + ['no_such'], [])
    T.raises(KeyError, lambda: bad.get([]), 'an absent node must raise KeyError')
    bad = ConfigFileParser(p, init, nested + ['no_such'])
    T.raises(KeyError, lambda: bad.get([]), 'an absent nested node must raise KeyError')
    T.raises(FileNotFoundError, lambda: ConfigFileParser('no_file.yaml', [], []).get([]), 'an absent file must be reported')
    os.unlink(p)
    T.sig(d, init, nested, want)


class RecWriter(pd.ExcelWriter):
    """A spreadsheet writer that records the cells it is given."""
    _engine = 'vhrec'
    _supported_extensions = ('.xlsx',)
    last = None

    def __init__(self, path, engine=None, **kw):
        super().__init__(path, engine=engine, **kw)
        self.log, self.saved = {}, 0
        RecWriter.last = self

    @property
    def book(self):
        return None

    @property
    def sheets(self):
        return {}

    def _save(self):
        self.saved += 1

    def _write_cells(self, cells, sheet_name=None, startrow=0, startcol=0, freeze_panes=None, **kw):
        s = self.log.setdefault(sheet_name, {})
        for c in cells:
            s[(startrow + c.row, startcol + c.col)] = c.val


pd.io.excel.register_writer(RecWriter)
pd.set_option('io.excel.xlsx.writer', 'vhrec')


def frame(rng):
    n, m = int(rng.integers(0, 5)), int(rng.integers(1, 4))
    cols = {}
    for j in range(m):
        cols[pick(rng, ['x', 'log_M', 'w_p', 'id', 'name']) + f'_{j}'] = \
            pick(rng, [rng.normal(size=n).round(6), rng.integers(-9, 9, n), np.array([f's{i}' for i in range(n)], dtype=object)])
    return pd.DataFrame(cols)


def nest(rng, depth=0):
    out = {}
    for k in rng.permutation(['p1', 'p2', 'halos', 'galaxies', 'q'])[:int(rng.integers(1, 4))]:
        out[str(k)] = nest(rng, depth + 1) if depth < 2 and chance(rng, .4) else frame(rng)
    return out


def flat(d, pre=''):
    for k, v in d.items():
        if isinstance(v, dict):
            yield from flat(v, f'{pre}{k}.')
        else:
            yield pre + k, v


def sheets(rng, T):
    """Nested frames to sheets and back."""
    d = nest(rng)
    index = chance(rng, .3)
    prefix = pick(rng, ['', '', 'pre'])
    fmt = pick(rng, [None, None, '%.2f'])
    kw = dict(sheet_prefix=prefix, index=index, float_format=fmt)
    if prefix == '' and chance(rng, .5):
        kw.pop('sheet_prefix')
    for o, v in (('index', False), ('float_format', None)):     # the documented defaults
        if kw[o] == v and chance(rng, .5):
            kw.pop(o)
    way = pick(rng, ['path', 'writer'])
    T.note(sheets=[k for k, _ in flat(d)], **kw)
    if way == 'path':
        Excel.dump_file(f'e{T.case}.xlsx', d, **kw)
        w = RecWriter.last
        T.check(w.saved == 1, 'a file given by name must be saved exactly once', saved=w.saved)
        if os.path.exists(f'e{T.case}.xlsx'):
            os.unlink(f'e{T.case}.xlsx')
    else:
        w = RecWriter(io.BytesIO(), engine='vhrec')
        Excel.dump_file(w, d, **kw)
        T.check(w.saved == 0, 'a writer owned by the caller must stay open')
    want = {(prefix + '.' if prefix else '') + k: v for k, v in flat(d)}
    T.check(list(w.log) == list(want), 'sheet names or order differ', got=list(w.log), want=list(want))
    for name, df in want.items():
        cells = w.log[name]
        off = 1 if index else 0
        for j, c in enumerate(df.columns):
            T.check(cells.get((0, j + off)) == c, 'column header', name=name, got=cells.get((0, j + off)), want=c)
            for i, v in enumerate(df[c]):
                v = float(fmt % v) if fmt and isinstance(v, float) else v
                g = cells.get((i + 1, j + off))
                T.check(g is not None and (g == v or (isinstance(v, float) and abs(float(g) - v) < 1e-12)), 'cell value',
                        name=name, at=(i, j), got=g, want=v)
                T.ev('cell')
        T.check(max((r for r, _ in cells), default=0) == len(df) and max(c for _, c in cells) == df.shape[1] - 1 + off, 'sheet size', name=name)
    # reading
    one = frame(rng)
    RecWriter.last = None
    w1 = RecWriter(io.BytesIO(), engine='vhrec')
    Excel.dump_file(w1, one, sheet_prefix='solo')
    T.check(list(w1.log) == ['solo'], 'a single frame must go to the named sheet', got=list(w1.log))
    store = {k: v.copy() for k, v in want.items()}
    orig = pd.read_excel

    def fake(file, sheet_name=0, **kw):
        T.check(sheet_name is None, 'all sheets must be requested')
        return {k: v.copy() for k, v in store.items()}
    pd.read_excel = fake
    try:
        for tabs in (False, True):
            for reorder in (True, False):
                got = Excel.load_file('x.xlsx', **({'as_datatables': tabs} if tabs or chance(rng, .5) else {}), **({'reorder': reorder} if not reorder or chance(rng, .5) else {}))
                flat_got = list(flat(got)) if reorder else list(got.items())
                T.check([k for k, _ in flat_got] == list(_order(store) if reorder else store), 'sheet names read back',
                        got=[k for k, _ in flat_got], want=list(store))
                if reorder:
                    T.check(_shape(got) == _shape(_nested(d, prefix)), 'nesting read back', got=_shape(got))
                for k, v in flat_got:
                    T.check(isinstance(v, DataTable if tabs else pd.DataFrame), 'kind of table read back')
                    df = store[k]
                    T.check(list(v.keys()) == list(df.columns) and all(same(np.asarray(v[c]), df[c].to_numpy()) for c in df.columns),
                            'table read back differs', k=k)
                T.ev('loaded')
    finally:
        pd.read_excel = orig
    T.sig(sorted(want), index, fmt, way)


def _nested(d, prefix):
    return {prefix: d} if prefix else d


def _shape(d):
    return {k: _shape(v) if type(v) is dict else 0 for k, v in d.items()}


def _order(store):
    """Names in the order of first appearance of their parents."""
    out = {}
    for k in store:
        n = out
        *ks, last = k.split('.')
        for s in ks:
            n = n.setdefault(s, {})
        n[last] = k
    def walk(n):
        for v in n.values():
            if isinstance(v, dict):
                yield from walk(v)
            else:
                yield v
    return list(walk(out))


MONITORS = [
    Monitor('config', config, 600, 5000, need={'parsed': 80, 'missing': 20}),
    Monitor('sheets', sheets, 250, 2000, need={'cell': 300, 'loaded': 100}),
]
