"""C11: bisection and linear interpolation."""
import bisect as pb
import numpy as np
from pyhipp.numerical import interpolate as I
from ..core import Monitor, same
from ..gen import pick, chance, float_grid, Frozen

RULE = ('node sets of 1 to 400 nodes (uneven spacing, huge/tiny scales, repeated nodes for plain bisection) with queries on nodes, one ulp beside, between and far outside; '
        'reference is the standard-library bisection and the two-point formula. Identity is (node set, trailing shape).')


def nodes(rng, n, dup=False):
    scale = 10. ** rng.integers(-6, 7)
    x = np.cumsum(rng.exponential(size=n) + .01) * scale
    x += rng.normal() * scale * pick(rng, [0., 1., 100.])
    if dup and n > 2:
        j = rng.integers(1, n, size=max(1, n // 4))
        x[j] = x[j - 1]
        x = np.sort(x)
    return x


def queries(rng, x, m):
    n = len(x)
    span = (x[-1] - x[0]) or 1.
    on = x[rng.integers(n, size=m)]
    q = rng.uniform(x[0] - .2 * span, x[-1] + .2 * span, size=m)
    k = rng.random(m)
    q = np.where(k < .3, on, q)
    q = np.where((k >= .3) & (k < .4), np.nextafter(on, np.inf), q)
    q = np.where((k >= .4) & (k < .5), np.nextafter(on, -np.inf), q)
    q = np.where((k >= .5) & (k < .52), 1e300, q)
    q = np.where((k >= .52) & (k < .54), -1e300, q)
    # a tiny fraction of the gap away from a node
    i = rng.integers(max(n - 1, 1), size=m)
    gap = (x[np.minimum(i + 1, n - 1)] - x[i]).astype(float)
    t = 10. ** rng.uniform(-9, -2, size=m)
    q = np.where((k >= .54) & (k < .62), x[i] + t * gap, q)
    q = np.where((k >= .62) & (k < .70), x[np.minimum(i + 1, n - 1)] - t * gap, q)
    q[0], q[-1] = x[0], x[-1]
    return q


def interp(x, y, q):
    """Value of the piecewise-linear function, constant outside."""
    n = len(x)
    if q <= x[0]:
        return y[0]
    if q >= x[-1]:
        return y[-1]
    i = pb.bisect_right(list(x), q) - 1
    t = (q - x[i]) / (x[i + 1] - x[i])
    return y[i] * (1 - t) + y[i + 1] * t


def search(rng, T):
    """Interval and nearest-node search."""
    n = int(pick(rng, [1, 2, 3, 4, 5, 8, 16, 17, 31, 100, 400]))
    if chance(rng, .25):
        x = np.sort(rng.integers(-20, 20, size=n))
        q = rng.integers(-25, 25, size=20)
    else:
        x = nodes(rng, n, dup=chance(rng, .3))
        q = queries(rng, x, 20)
    if chance(rng, .2):
        big = np.zeros(2 * n, x.dtype)
        big[::2] = x
        x = big[::2]
    fr = Frozen(x=x, q=q)
    lst = x.tolist()
    near = I.bisearch_nearest_array(x, q)
    T.check(near.shape == q.shape and near.dtype.kind == 'i', 'vectorised search shape')
    for v, a in zip(q, near):
        i = I.bisearch(x, v)
        T.check(i == pb.bisect_right(lst, v) - 1, 'interval does not contain the query', x=x, q=v, got=i)
        j = I.bisearch_nearest(x, v)
        d = np.abs(x - v)
        T.check(0 <= j < n and d[j] == d.min(), 'not the nearest node', x=x, q=v, got=j, want=int(d.argmin()))
        T.check(j == a, 'scalar and vectorised search differ', q=v)
        T.ev('below' if i < 0 else 'above' if i == n - 1 else 'within')
    fr.check(T)
    T.sig('search', x)
    T.state('n', n)


def kernels(rng, T):
    """Interpolation kernels and weights in one and two dimensions."""
    n = int(pick(rng, [1, 2, 3, 4, 7, 16, 33, 200]))
    x = nodes(rng, n)
    y = rng.normal(size=n)
    fr = Frozen(x=x, y=y)
    for q in queries(rng, x, 15):
        q = float(q)
        l, r, wl, wr = I.bisearch_interp_weight(x, q)
        T.check(0 <= l < n and 0 <= r < n and abs(wl + wr - 1) < 1e-12 and -1e-12 <= wl <= 1 + 1e-12, 'weights', q=q, got=(l, r, wl, wr))
        if x[0] <= q <= x[-1]:
            T.close(wl * x[l] + wr * x[r], q, 'weights do not reproduce the query', rtol=1e-9, atol=1e-9 * np.abs(x).max(), x=x)
            if n > 1:
                T.check(x[l] <= q <= x[r], 'nodes do not bracket the query', q=q)
        got = I.bisearch_interp(x, y, q)
        T.close(got, interp(x, y, q), 'interpolated value', rtol=1e-9, atol=1e-9, q=q, x=x)
        if q in x:
            T.check(abs(got - y[np.searchsorted(x, q)]) < 1e-12 * (1 + abs(got)), 'value at a node is not exact', q=q)
            T.ev('node')
        L, R = rng.normal(size=2)
        got = I.bisearch_interp_fix_oob(x, y, q, L, R)
        T.close(got, L if q < x[0] else R if q > x[-1] else interp(x, y, q), 'fixed out-of-range value', rtol=1e-9, atol=1e-9, q=q)
        T.ev('oob' if not x[0] <= q <= x[-1] else 'in')
    if n > 1:
        i = int(rng.integers(n - 1))
        t = rng.random()
        q = x[i] + t * (x[i + 1] - x[i])
        a, b = I.linear_interp_weight(q, x[i], x[i + 1])
        T.close([a, b], [(x[i + 1] - q) / (x[i + 1] - x[i]), (q - x[i]) / (x[i + 1] - x[i])], 'two-point weights', rtol=1e-6, atol=1e-9)
        T.eq(tuple(I.linear_interp_weight(x[i], x[i], x[i + 1])), (1., 0.), 'weights at the left node')
        T.eq(tuple(I.linear_interp_weight(x[i + 1], x[i], x[i + 1])), (0., 1.), 'weights at the right node')
    # two dimensions
    m = int(pick(rng, [1, 2, 5, 9]))
    z = nodes(rng, m)
    tail = pick(rng, [(), (3,)])
    Y = rng.normal(size=(n, m) + tail)
    fr2 = Frozen(Y=Y, z=z)
    for q1, q2 in zip(queries(rng, x, 8), rng.permutation(queries(rng, z, 8))):
        got = I.bisearch_interp_2d(x, z, Y, float(q1), float(q2))
        rows = np.array([interp(x, Y[:, k], q1) for k in range(m)])
        T.close(np.asarray(got), np.asarray(interp(z, rows, q2)), 'bilinear value', rtol=1e-8, atol=1e-8, q=(q1, q2))
        T.ev('2d')
    fr.check(T)
    fr2.check(T)
    T.sig('kernels', x, y, tail)


def linear(rng, T):
    """The interpolator object and its derivative."""
    n = int(pick(rng, [2, 3, 4, 5, 9, 40, 300]))
    x, y = nodes(rng, n), rng.normal(size=n)
    fr = Frozen(x=x, y=y)
    f = pick(rng, [lambda: I.Linear(x, y), lambda: I.Linear(x, y, True), lambda: I.Linear(x, y, False)])()
    for q in queries(rng, x, 20):
        T.close(f.value_at(float(q)), interp(x, y, q), 'interpolated value', rtol=1e-9, atol=1e-9, q=q, x=x)
        T.ev('value')
    for i in range(0, n, max(1, n // 10)):
        T.close(f.value_at(x[i]), y[i], 'value at a node', rtol=1e-12, atol=1e-13)
    d = f.derivative()
    want = np.empty(n)
    for i in range(n):
        l, r = max(i - 1, 0), min(i + 1, n - 1)
        want[i] = (y[r] - y[l]) / (x[r] - x[l])
    for i in range(n):
        T.close(d.value_at(x[i]), want[i], 'derivative at a node is not the slope between its neighbours', rtol=1e-8, i=i, n=n)
        T.ev('slope')
    q = x[0] + rng.random() * (x[-1] - x[0])
    T.close(d.value_at(q), interp(x, want, q), 'derivative between nodes', rtol=1e-7, atol=1e-7 * np.abs(want).max())
    T.close(f.value_at(float(q)), interp(x, y, q), 'taking the derivative changed the function', rtol=1e-9, atol=1e-9)
    # straight line: derivative is its slope everywhere
    a, b = rng.normal(size=2)
    g = I.Linear(x, a * x + b).derivative()
    T.close([g.value_at(v) for v in (x[0], q, x[-1])], [a] * 3, 'slope of a straight line', rtol=1e-5, atol=1e-6 * (abs(a) + abs(b) / (x[-1] - x[0])) * (1 + np.abs(x).max() / np.diff(x).min()) * 1e-3)
    # rejected node sets
    bad = x.copy()
    j = int(rng.integers(1, n))
    bad[j] = bad[j - 1] if chance(rng, .5) else bad[j - 1] - abs(bad[j] - bad[j - 1])
    T.raises(AssertionError, lambda: I.Linear(bad, y), 'nodes that are not ascending must be refused', bad=bad)
    T.raises(AssertionError, lambda: I.Linear(x[::-1].copy(), y), 'descending nodes must be refused')
    T.raises(AssertionError, lambda: I.Linear(x, y[:-1].copy()), 'value array of another length must be refused')
    T.raises(AssertionError, lambda: I.Linear(x[:1].copy(), y[:1].copy(), False), 'a single node must be refused')
    T.ev('refused', 4)
    fr.check(T)
    T.sig('linear', x, y)
    T.state('n', n)


MONITORS = [
    Monitor('search', search, 1200, 20000, need={'below': 100, 'above': 100, 'within': 500}),
    Monitor('kernels', kernels, 900, 8000, need={'node': 200, 'oob': 200, '2d': 300}),
    Monitor('linear', linear, 900, 8000, need={'value': 1000, 'slope': 1000, 'refused': 100}),
]
