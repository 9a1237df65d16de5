"""C06: Fortran unformatted files."""
import os
from pathlib import Path
import numpy as np
from pyhipp.io.binary.fortran import BinaryFile
from ..core import Monitor, same
from ..gen import pick, chance, array

RULE = ('files made of random raw records and marked sections are read by random sequences of load/skip/seek/read-bytes calls while a byte-level '
        'model tracks the position; then markers are corrupted and files truncated. Non-trivial: at least one skip followed by a load; identity '
        'is the (call, dtype, count) sequence.')
DT = ['f8', 'f4', 'i4', 'i8', 'i2', 'u1', 'c16', '>f8', '>i4', 'S5',
      [('id', 'i8'), ('pos', 'f4', (3,))], [('a', 'u1'), ('b', 'f8')]]


def spell(rng, dt):
    """The same dtype in one of the forms numpy accepts."""
    d = np.dtype(dt)
    if d.names is None and d.kind != 'S' and d.isnative:
        return pick(rng, [d, d.str, d.type])
    return pick(rng, [d, dt])


def payload(rng, dt, n):
    return np.frombuffer(rng.integers(0, 256, size=np.dtype(dt).itemsize * n, dtype='u1').tobytes(), dtype=dt)


def make(rng, p, corrupt=None):
    """items: (kind, dtype, n or None, data, offset)"""
    items, buf = [], b''
    for _ in range(int(rng.integers(3, 12))):
        dt = pick(rng, DT)
        n = None if chance(rng, .3) else int(rng.integers(0, 6))
        kind = pick(rng, ['sect', 'sect', 'rec', 'raw'])
        data = payload(rng, dt, 1 if n is None else n)
        m = np.int32(data.nbytes).tobytes()
        off = len(buf)
        body = data.tobytes()
        buf += m + body + m if kind == 'sect' else body
        items.append((kind, dt, n, data, off))
    with open(p, 'wb') as f:
        f.write(buf)
    return items, buf


def same_bytes(T, got, data, n, msg):
    if n is None:
        g = np.asarray(got)                       # scalars lose their byte order, and byte strings their trailing NULs
        if g.dtype.kind == 'S' == data.dtype.kind and g.dtype.itemsize <= data.dtype.itemsize:
            g = g.astype(data.dtype)
        T.check(g.shape == () and g.dtype.newbyteorder('=') == data.dtype.newbyteorder('=')
                and g.astype(data.dtype).tobytes() == data.tobytes(), msg, got=got, want=data)
    else:
        T.check(isinstance(got, np.ndarray) and got.shape == (n,) and got.dtype == data.dtype
                and got.tobytes() == data.tobytes(), msg, got=got, want=data)


def stream(rng, T):
    """Random sequences of loads and skips stay in step with the file."""
    p = f's{T.case}.bin'
    items, buf = make(rng, p)
    ops = []
    with BinaryFile(pick(rng, [p, Path(p)]), **pick(rng, [{}, {'mode': 'rb'}, {'open_kw': {'buffering': 0}}])) as f:
        i = 0
        while i < len(items):
            kind, dt, n, data, off = items[i]
            T.check(f.seek(0, 1) == off, 'the reader is out of step with the file', at=f.seek(0, 1), want=off, ops=ops[-3:])
            act = pick(rng, ['load', 'load', 'skip', 'jump'])
            d = spell(rng, dt)
            args = (d,) if n is None and chance(rng, .5) else (d, n)
            T.note(kind=kind, act=act, dtype=str(dt), n=n)
            if act == 'jump' and chance(rng, .5):
                j = int(rng.integers(len(items)))
                f.seek(items[j][4])
                T.check(f.seek(0, 1) == items[j][4], 'absolute seek')
                ops.append(('jump', j - i))
                i = j if len(ops) < 60 else i + 1
                if i != j:
                    f.seek(items[i][4] if i < len(items) else len(buf))
                continue
            if kind == 'raw':
                got = f.load_bytes(data.nbytes)
                T.check(got == data.tobytes(), 'raw bytes differ')
            elif kind == 'rec':
                if act == 'skip':
                    f.skip_rec(*args)
                else:
                    same_bytes(T, f.load_rec(*args), data, n, 'record differs')
            elif act == 'skip':
                f.skip_sect(*args)
            else:
                same_bytes(T, f.load_sect(*args), data, n, 'section differs')
            T.ev(f'{kind}_{"skip" if act == "skip" else "load"}')
            ops.append((kind, act, str(dt), n))
            i += 1
        T.check(f.seek(0, 1) == len(buf), 'position after the last item')
        f.seek(0)
        T.check(f.load_bytes() == buf, 'reading all bytes')
        r = repr(f)
        T.check(isinstance(r, str) and 'BinaryFile' in r and p in r, 'printed form', got=r)
    T.raises(ValueError, lambda: f.load_bytes(1), 'the file must be closed on exit')
    T.check(open(p, 'rb').read() == buf, 'reading changed the file')
    os.unlink(p)
    if any(o[1] == 'skip' for o in ops) and any(o[1] == 'load' for o in ops):
        T.sig(ops)


def corrupt(rng, T):
    """Disagreeing markers and truncation are reported, never returned as data."""
    p = f'k{T.case}.bin'
    dt = pick(rng, DT)
    n = int(rng.integers(0, 6))
    data = payload(rng, dt, n)
    lead, tail = data.nbytes, data.nbytes
    delta = int(pick(rng, [1, -1, 4, 1 << 8, 1 << 16, 1 << 24, -(1 << 20), 8]))
    which = pick(rng, ['lead', 'tail', 'trunc', 'short_request'])
    if which == 'lead':
        lead += delta
    elif which == 'tail':
        tail += delta
    raw = np.int32(lead).tobytes() + data.tobytes() + np.int32(tail).tobytes()
    if which == 'trunc':
        raw = raw[:int(rng.integers(0, len(raw)))]
    req = n
    if which == 'short_request':
        if n == 0 or np.dtype(dt).itemsize < 4:
            return
        req = n - 1
        nxt = data.tobytes()[req * np.dtype(dt).itemsize:][:4]
        if nxt == np.int32(lead).tobytes():
            return
    with open(p, 'wb') as f:
        f.write(raw)
    T.note(which=which, dtype=str(dt), n=n, delta=delta)
    for fn in ('load_sect', 'skip_sect'):
        with BinaryFile(p) as f:
            T.raises((AssertionError, IndexError, ValueError, EOFError, OSError), lambda: getattr(f, fn)(spell(rng, dt), n=req),
                     f'{fn}: a damaged section was accepted', which=which)
    T.ev('damage_' + which)
    # a raw record cut short: whatever is returned stands in the file
    cut = data.tobytes()[:int(rng.integers(0, data.nbytes + 1))]
    with open(p, 'wb') as f:
        f.write(cut)
    with BinaryFile(p) as f:
        try:
            got = f.load_rec(spell(rng, dt), n)
        except (AssertionError, IndexError, ValueError, EOFError, OSError):
            pass
        else:
            T.check(got.tobytes() == cut[:got.nbytes] and len(got) * data.itemsize == got.nbytes <= len(cut), 'a record cut short was made up', got=got, file=cut)
        T.ev('cut record')
    os.unlink(p)
    T.sig(which, str(dt), n, delta)


MONITORS = [
    Monitor('stream', stream, 600, 8000, need={'sect_load': 50, 'sect_skip': 30, 'rec_skip': 20, 'rec_load': 30}),
    Monitor('corrupt', corrupt, 600, 6000, need={'damage_lead': 20, 'damage_tail': 20, 'damage_trunc': 20}),
]
