"""Line coverage of pyhipp's Python code (development aid, VH_COV=1)."""
import sys
_seen = {}


def start():
    m = sys.monitoring
    m.use_tool_id(m.COVERAGE_ID, 'vh')

    def line(code, ln):
        f = code.co_filename
        if f.startswith('/repo/src/pyhipp'):
            _seen.setdefault(f, set()).add(ln)
        return m.DISABLE
    m.register_callback(m.COVERAGE_ID, m.events.LINE, line)
    m.set_events(m.COVERAGE_ID, m.events.LINE)


def stop():
    return {k: sorted(v) for k, v in _seen.items()}


# ---- which kinds of arguments every function was given (VH_COV=args)
_args = {}


def kind(v):
    import numpy as np
    if v is None or isinstance(v, bool):
        return repr(v)
    if isinstance(v, np.ndarray):
        n = 'empty' if v.size == 0 else 'one' if v.size == 1 else 'few' if v.size < 1000 else 'many'
        return f'array {v.dtype.kind}{v.dtype.itemsize} {v.ndim}d {n}' + ('' if v.flags.c_contiguous else ' strided')
    if isinstance(v, (int, float, np.generic)):
        import math
        try:
            s = 'nan' if math.isnan(v) else 'inf' if math.isinf(v) else '0' if v == 0 else '-' if v < 0 else '+'
        except TypeError:
            s = ''
        return f'{type(v).__name__} {s}'
    if isinstance(v, str):
        return 'str ' + (repr(v) if len(v) < 12 else '...')
    if isinstance(v, (list, tuple, dict, set)):
        return f'{type(v).__name__} {min(len(v), 2)}'
    return type(v).__name__


def start_args():
    import inspect

    def prof(frame, event, arg):
        if event != 'call':
            return
        c = frame.f_code
        if not c.co_filename.startswith('/repo/src/pyhipp') or c.co_name.startswith('<'):
            return
        n = c.co_argcount + c.co_kwonlyargcount
        k = f'{c.co_filename[len("/repo/src/pyhipp/"):]}:{c.co_firstlineno}:{c.co_qualname}'
        d = _args.setdefault(k, {})
        loc = frame.f_locals
        for a in c.co_varnames[:n]:
            if a in ('self', 'cls') or a not in loc:
                continue
            s = d.setdefault(a, set())
            if len(s) < 60:
                try:
                    s.add(kind(loc[a]))
                except Exception:
                    s.add('?')
        i = n
        if c.co_flags & inspect.CO_VARARGS:
            d.setdefault('*' + c.co_varnames[i], set()).add(str(min(len(loc.get(c.co_varnames[i], ())), 3)))
            i += 1
        if c.co_flags & inspect.CO_VARKEYWORDS:
            d.setdefault('**' + c.co_varnames[i], set()).update(loc.get(c.co_varnames[i], {}))
    sys.setprofile(prof)


def stop_args(name):
    import json, os
    sys.setprofile(None)
    os.makedirs('/tmp/w/args', exist_ok=True)
    with open(f'/tmp/w/args/{name}.json', 'w') as f:
        json.dump({k: {a: sorted(map(str, s)) for a, s in d.items()} for k, d in _args.items()}, f)
