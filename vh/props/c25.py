"""C25: point groups."""
import itertools
import numpy as np
from pyhipp.group_theory import point_group as pg
from pyhipp.group_theory.point_group import Group, Op
from ..core import Monitor
from ..gen import pick, chance, Frozen

RULE = ('both named groups and all generating families, against signed permutation matrices and rotation matrices built independently; random words of operations '
        'applied to points of any leading shape. Identity is (group, word, points).')


def signed_perms(n):
    out = []
    for p in itertools.permutations(range(n)):
        for s in itertools.product((1, -1), repeat=n):
            m = np.zeros((n, n), int)
            m[range(n), p] = s
            out.append(m)
    return out


FULL = {2: {m.tobytes() for m in signed_perms(2)}, 3: {m.tobytes() for m in signed_perms(3)}}
NAMES = {'cubic': 3, '3d': 3, 'square': 2, '2d': 2}


def rot(axes, quarter, n=3):
    i, j = axes
    m = np.eye(n, dtype=int)
    for _ in range(quarter):
        r = np.eye(n, dtype=int)
        r[i, i] = r[j, j] = 0
        r[i, j], r[j, i] = -1, 1
        m = r @ m
    return m


def refl(n):
    m = np.eye(n, dtype=int)
    m[0, 0] = -1
    return m


FAMILIES = {
    'RotationXY': (3, [rot((0, 1), k) for k in range(4)]),
    'ReflectionX': (3, [np.eye(3, dtype=int), refl(3)]),
    'Rotation2DXY': (2, [rot((0, 1), k, 2) for k in range(4)]),
    'Reflection2DX': (2, [np.eye(2, dtype=int), refl(2)]),
    # rotations that carry the z axis to each of the six faces
    'RotationOther': (3, None),
}


def key(m):
    k = np.rint(m).astype(int)
    return k.tobytes()


def group(rng, T):
    """The named groups are the full symmetry groups, closed and with inverses."""
    name = pick(rng, list(NAMES))
    n = NAMES[name]
    g = Group.create(name)
    T.note(name=name)
    T.check(isinstance(g, Group), 'type')
    T.eq(len(g), len(FULL[n]), 'order of the group')
    mats = [op.mat for op in g]
    T.check(all(m.shape == (n, n) and np.array_equal(m, np.rint(m)) for m in mats), 'matrices')
    T.eq({key(m) for m in mats}, FULL[n], 'operations are not the symmetries')
    T.close(np.array([m @ m.T for m in mats]), np.array([np.eye(n)] * len(g)), 'operations are not orthogonal', atol=1e-14)
    T.close(np.abs([np.linalg.det(m) for m in mats]), np.ones(len(g)), 'determinants', rtol=1e-12)
    for _ in range(30):
        i, j = (int(v) for v in rng.integers(len(g), size=2))
        c = g[i].combined(g[j])
        T.close(c.mat, mats[i] @ mats[j], 'composition')
        T.check(key(c.mat) in FULL[n], 'not closed')
        T.check(c is not g[i] and c.mat is not g[i].mat, 'composition is a new operation')
        T.ev('product')
    T.check(all(key(m.T) in FULL[n] for m in mats), 'inverses')
    # group elements are independent objects
    k = int(rng.integers(len(g)))
    c = g.copied()
    c[k].mat[...] = 7.
    T.eq(np.array([op.mat for op in g]), np.array(mats), 'copied() shares its operations')
    g[k].mat[...] = 5.
    T.eq({key(op.mat) for op in Group.create(name)}, FULL[n], 'a group changed by hand leaks into new groups')
    r = Group.create(name).to_simple_repr()
    T.eq({key(x['mat']) for x in r}, FULL[n], 'description')
    repr(g)
    T.raises(KeyError, lambda: Group.create(pick(rng, ['4d', 'Cubic', '', 'xyz'])), 'unknown group')
    T.sig(name, k, i, j)


def families(rng, T):
    """Generating families and combined() of groups."""
    fam = pick(rng, list(FAMILIES))
    n, want = FAMILIES[fam]
    cls = getattr(pg, fam)
    T.note(family=fam)
    g = cls.group()
    mats = [op.mat for op in g]
    T.eq((len(g), cls.group_size, cls.n_dims), (len(mats), len(mats), n), 'size')
    if want is not None:
        T.eq(np.array(mats), np.array(want, float), 'matrices of the family')
    else:
        T.eq(len(g), 6, 'six rotations')
        T.close(np.array([np.linalg.det(m) for m in mats]), np.ones(6), 'proper rotations')
        T.eq(len({key(m[:, 2]) for m in mats}), 6, 'the z axis reaches all six faces')
    i = int(rng.integers(len(g)))
    op = cls.create(i)
    T.eq(op.mat, mats[i], 'create')
    op.mat[...] = 9
    T.eq(cls.create(i).mat, mats[i], 'an operation shares its table')
    T.eq(cls().mat, np.eye(n), 'default operation')
    # words
    others = [f for f in FAMILIES if FAMILIES[f][0] == n]
    word, ref = cls.create(i), mats[i].copy()
    w = [getattr(pg, pick(rng, others)) for _ in range(int(rng.integers(0, 5)))]
    ops = [c.create(int(rng.integers(c.group_size))) for c in w]
    for o in ops:
        ref = ref @ o.mat
    before = [o.mat.copy() for o in ops]
    word = word.combined(*ops)
    T.close(word.mat, ref, 'word of operations')
    T.eq([o.mat for o in ops], before, 'operands changed')
    T.check(isinstance(word, cls), 'type of the combination')
    one = cls.create(i)
    lone = one.combined()
    lone.mat[...] = 7.
    T.eq(one.mat, mats[i], 'a combination with nothing shares its operation')
    # groups
    gs = [getattr(pg, pick(rng, others)).group() for _ in range(int(rng.integers(0, 3)))]
    c = g.combined(*gs)
    prod = [m for m in mats]
    for h in gs:
        prod = [a @ b.mat for a in prod for b in h]
    T.close(np.array([o.mat for o in c]), np.array(prod), 'combined groups')
    T.check(all(a is not b for a, b in zip(c, g)), 'combined group shares operations')
    T.ev('word')
    T.sig(fam, i, [x.tobytes() for x in before])


def apply(rng, T):
    """Operations act on points as their matrices."""
    name = pick(rng, list(NAMES))
    n = NAMES[name]
    g = Group.create(name)
    dt = pick(rng, ['f8', 'f8', 'f4', 'i8', 'i2', 'u1', 'u4', '>f8'])
    shape = pick(rng, [(n,), (5, n), (n, n), (0, n), (2, 3, n), (n, n, n), (1, n), (2 * n, n)])
    x = rng.integers(0, 200, size=shape).astype(dt) if dt[0] == 'u' else (rng.normal(size=shape) * 100).astype(dt)
    fr = Frozen(x=x)
    k = int(rng.integers(len(g)))
    op = g[k]
    T.note(name=name, op=k, shape=shape, dtype=dt)
    y = op(x)
    ref = np.einsum('ij,...j->...i', op.mat, x.astype(float))
    tol = dict(rtol=1e-6 if dt == 'f4' else 1e-12, atol=1e-9)
    T.close(y, ref, 'action', **tol)
    T.close(np.linalg.norm(y, axis=-1), np.linalg.norm(x.astype(float), axis=-1), 'length', **tol)
    inv = [o for o in g if np.array_equal(o.mat, op.mat.T)]
    T.eq(len(inv), 1, 'one inverse')
    T.close(inv[0](y), x.astype(float), 'inverse', **tol)
    j = int(rng.integers(len(g)))
    T.close(op.combined(g[j])(x), op(g[j](x)), 'composition acts in order', **tol)
    if x.ndim == 2 and len(x) > 1:
        T.close(y @ y.T, x.astype(float) @ x.astype(float).T, 'angles', rtol=1e-5 if dt == 'f4' else 1e-9, atol=1e-2 if dt == 'f4' else 1e-8)
    # orbit of a generic point
    p = np.array([1., 2., 3.][:n])
    T.eq(len({tuple(o(p)) for o in g}), len(g), 'orbit of a generic point')
    # corners of the cube go to corners
    c = np.array(list(itertools.product((-1., 1.), repeat=n)))
    T.eq({tuple(v) for v in op(c)}, {tuple(v) for v in c}, 'corners')
    fr.check(T)
    T.ev('applied')
    T.state('op', (n, k))
    T.sig(name, k, x)


MONITORS = [
    Monitor('c25.group', group, 250, 4000, need={'product': 2000}),
    Monitor('c25.families', families, 2500, 30000, need={'word': 1000}),
    Monitor('c25.apply', apply, 1500, 20000, need={'applied': 800}),
]
