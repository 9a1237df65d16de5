"""Stand-in for the optional `hmf` package (not installed here): records what it is
asked for and answers with a table computed from exactly that."""
import sys
import types
import numpy as np

CALLS = []


class MassFunction:
    def __init__(self, **kw):
        CALLS.append({k: dict(v) if isinstance(v, dict) else v for k, v in kw.items()})
        self.kw = CALLS[-1]
        lo, hi, d = kw.get('Mmin', 10.), kw.get('Mmax', 15.), kw.get('dlog10m', .01)
        self.m = 10.**np.arange(lo, hi, d)
        self.dndlog10m = 1e-2 * (self.m / 1e12)**-.9 * np.exp(-self.m / 1e14) / (1 + kw.get('z', 0.))


def install():
    m = types.ModuleType('hmf')
    m.MassFunction = MassFunction
    sys.modules['hmf'] = m
