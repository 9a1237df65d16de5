"""C21: background cosmology against own integrals of the Friedmann equation."""
import json
import os
import warnings
from pathlib import Path
import numpy as np
import astropy.cosmology
from pyhipp.astro.cosmology.model import LambdaCDM, predefined, _Predefined
from pyhipp.astro.cosmology.flat_lambda_cdm_nr import _FlatLambdaCDMNR, _planck_2015
from ..core import Monitor
from ..gen import pick, chance, Frozen

RULE = ('flat parameter sets (h 0.5-1, omega_m 0.05-1, with and without radiation, every constructor), all predefined models against published values, '
        'redshifts 0 to 1000 as scalars and arrays of any shape; reference integrates 1/E itself. Identity is (parameters, redshifts).')

MPC, GYR, MSUN = 3.085677581491367e22, 3.15576e16, 1.988409870698051e30
G, C, SIGMA = 6.6743e-11, 299792458.0, 5.6703744191844314e-08
H0 = 1e5 / MPC * GYR                    # [h/Gyr]
DH = C / 1e5                            # c/H0 [Mpc/h]
GL = np.polynomial.legendre.leggauss(160)

PUBLISHED = {
    'tng': (.6774, .3089, .6911, .0486, .8159, .9667, 2.7255),
    'eagle': (.6777, .307, .693, .0482519, .8288, .9611, 2.7255),
    'elucid': (.72, .258, .742, .044, .80, .96, 2.725),
    'elucid_wmap9': (.697, .282, .718, .046, .830, .971, 2.725),
    'millennium': (.73, .25, .75, .0425, .9, 1.0, 2.725),
    'millennium_wmap7': (.704, .272, .728, .045, .807, .961, 2.725),
    '_737': (.7, .3, .7, .045, .8288, .9611, 2.7255),
}
KEYS = 'hubble omega_m0 omega_l0 omega_b0 sigma_8 n_spec t_cmb'.split()


class Ref:
    def __init__(self, h, om, ob, tcmb):
        rho_c = 3 * (h * 1e5 / MPC)**2 / (8 * np.pi * G)
        og = 4 * SIGMA * tcmb**4 / C**3 / rho_c
        self.orad = og * (1 + 0.22710731766 * 3.04)
        self.h, self.om, self.ob = h, om, ob
        self.ol = 1 - om - self.orad

    def e(self, z):
        a = 1 + np.asarray(z, dtype=float)
        return np.sqrt(self.ol + self.om * a**3 + self.orad * a**4)

    def _int(self, f, lo, hi, n):
        """Composite Gauss-Legendre, elementwise in lo and hi."""
        lo, hi = np.broadcast_arrays(np.asarray(lo, float), np.asarray(hi, float))
        x, w = GL
        s = np.zeros(lo.shape)
        for i in range(n):
            a, b = lo + (hi - lo) * i / n, lo + (hi - lo) * (i + 1) / n
            u = .5 * (a + b)[..., None] + .5 * (b - a)[..., None] * x
            s = s + .5 * (b - a) * (f(u) * w).sum(-1)
        return s

    def dc(self, z):
        return DH * self._int(lambda u: np.exp(u) / self.e(np.expm1(u)), 0., np.log1p(z), 3)

    def lookback(self, z):
        return self._int(lambda u: 1 / self.e(np.expm1(u)), 0., np.log1p(z), 3) / H0

    def age(self, z):
        return self._int(lambda u: 1 / self.e(np.expm1(u)), np.log1p(z), np.log1p(z) + 40., 10) / H0


def redshifts(rng):
    zmax = float(pick(rng, [.1, 2., 20., 1000.]))
    k = pick(rng, ['float', 'np', '1d', '2d', 'one', 'zeros'])
    if k == 'float':
        return float(rng.random() * zmax), k
    if k == 'np':
        return np.float64(rng.random() * zmax), k
    if k == 'zeros':
        return np.concatenate([[0.], np.sort(rng.random(3)) * zmax, [0.]]), k
    s = {'1d': (int(rng.integers(2, 9)),), '2d': (2, 3), 'one': (1,)}[k]
    return rng.random(s) * zmax, k


def parameters(rng):
    h = float(pick(rng, [.5 + .5 * rng.random(), .7, 1.0]))
    om = float(pick(rng, [.05 + .9 * rng.random(), .3, .1]))
    ob = float(om * pick(rng, [.01, .16, .5 * rng.random() + .001]))
    # (h, om, ob, t) is shared with C22 and C23, where baryons are needed
    return h, om, ob, float(pick(rng, [0., 2.7255, 2.725, 5.]))


def model_of(rng, T):
    how = pick(rng, ['params', 'params', 'file', 'astropy', 'predefined'])
    h, om, ob, t = parameters(rng)
    if how != 'predefined' and chance(rng, .1):
        ob = 0.
    s8, ns = float(.5 + rng.random()), float(.9 + .2 * rng.random())
    if how == 'predefined':
        name = pick(rng, list(PUBLISHED))
        v = dict(zip(KEYS, PUBLISHED[name]))
        return predefined[name], v, (how, name)
    v = dict(hubble=h, omega_m0=om, omega_l0=1 - om, omega_b0=ob, sigma_8=s8, n_spec=ns, t_cmb=t)
    if how == 'params':
        kw = {}
        if chance(rng, .5):
            kw = dict(name='m%d' % rng.integers(9), data_dir=pick(rng, [Path('/nowhere'), Path('rel/../dir'), Path('.')]), meta=pick(rng, [{'a': 1}, {}, {'a': {'b': None}}]))
        w = {k: v[k] for k in rng.permutation(KEYS)}
        if chance(rng, .5):
            w = {k: np.array(x) for k, x in w.items()}
        m = LambdaCDM.from_parameters(w, **kw)
        T.eq((m.name, m.data_dir, m.meta), (kw.get('name', ''), kw.get('data_dir', Path.cwd()), kw.get('meta', {})), 'from_parameters: name, folder, meta')
        return m, v, (how,)
    if how == 'file':
        d = Path(os.environ['VH_CASEDIR'])
        p = d / 'x y.json'
        sub = pick(rng, ['sub', 'a/b', '.', '../up', '/abs/olute', 'a b.d'])
        meta = pick(rng, [{'source': 's'}, {}, {'source': '', 'n': 0, 'l': [], 'none': None, 'd': {'k': 1}}, {'Name': 'x', 'z': [1, 2]}])
        conf = dict(name='fromfile', data_dir=sub, parameters=v) | meta
        order = [str(k) for k in rng.permutation(list(conf))]
        p.write_text(json.dumps({k: conf[k] for k in order}))
        meta = {k: meta[k] for k in order if k in meta}
        m = LambdaCDM.from_conf_file(p)
        T.eq((m.name, str(m.data_dir), m.meta), ('fromfile', str(d / sub), meta), 'from_conf_file: name, folder, meta')
        rep = m.to_simple_repr()
        T.eq((rep['name'], rep['data_dir'], rep['meta']), ('fromfile', str(d / sub), meta), 'description of a model from a file')
        T.eq([q.name for q in m.params], KEYS, 'order of the parameters')
        return m, v, (how,)
    a = astropy.cosmology.FlatLambdaCDM(H0=100 * h, Om0=om, Tcmb0=t, Ob0=ob)
    if chance(rng, .5):
        m = LambdaCDM.from_astropy_model(a, name='from astropy', data_dir=Path('/nowhere'), meta={'a': 1})
        T.eq((m.name, m.data_dir, m.meta), ('from astropy', Path('/nowhere'), {'a': 1}), 'from_astropy_model: name, folder, meta')
    else:
        m = LambdaCDM.from_astropy_model(a)
    r = Ref(h, om, ob, t)
    v = dict(hubble=h, omega_m0=om, omega_l0=r.ol, omega_b0=ob, t_cmb=t)
    return m, v, (how,)


def background(rng, T):
    """Parameters, expansion, densities, times and distances of a model."""
    m, v, how = model_of(rng, T)
    z, zk = redshifts(rng)
    fr = Frozen(z=z)
    T.note(model=how, v=v, z=z)
    for k, x in v.items():
        T.close(getattr(m, k), np.asarray(x), f'parameter {k}', rtol=1e-12, atol=1e-14)
    T.close(m.baryon_fraction0, np.asarray(v['omega_b0'] / v['omega_m0']), 'baryon fraction', rtol=1e-12)
    h = v['hubble']
    r = Ref(h, v['omega_m0'], v['omega_b0'], v['t_cmb'])
    zz = np.asarray(z, dtype=float)
    e, a = r.e(zz), 1 + zz
    with np.errstate(all='ignore'):
        ref = {
            'big_hubble0': (lambda: m.big_hubble0, np.asarray(H0)),
            'big_hubble': (lambda: m.big_hubble(z), H0 * e),
            'omega_m': (lambda: m.omega_m(z), r.om * a**3 / e**2),
            'omega_l': (lambda: m.omega_l(z), r.ol / e**2),
            'omega_b': (lambda: m.omega_b(z), r.ob * a**3 / e**2),
            # 1e10 Msun/h per (Mpc/h)^3
            'rho_crit': (lambda: m.rho_crit(z), 27.75366 * e**2),
            'rho_matter': (lambda: m.rho_matter(z), 27.75366 * r.om * a**3),
            'age': (lambda: m.age(z), r.age(zz)),
            'lookback': (lambda: m.times.lookback_at(z), r.lookback(zz)),
            'comoving': (lambda: m.distances.comoving_at(z), r.dc(zz)),
            'angular': (lambda: m.distances.angular_diameter_at(z), r.dc(zz) / a),
            'luminosity': (lambda: m.distances.luminosity_at(z), r.dc(zz) * a),
            'modulus': (lambda: m.distances.distance_modulus_at(z), 5 * np.log10(r.dc(zz) * a / h) + 25),
        }
    got = {}
    order = list(ref)
    rng.shuffle(order)
    for k in order:
        f, w = ref[k]
        got[k] = f()
        T.close(np.asarray(got[k]), w, f'{k}', rtol=2e-6, atol={'modulus': 1e-6, 'age': np.where(zz > 100, 2e-5, 5e-7), 'lookback': 5e-7}.get(k, 1e-9))
        T.ev('quantity')
    for k in order[:3]:
        T.eq(np.asarray(ref[k][0]()), np.asarray(got[k]), f'{k}: second call differs')
    # time adds up, distances dual
    T.close(np.asarray(m.age(z) + m.times.lookback_at(z)), np.broadcast_to(m.age(0.), zz.shape), 'age + lookback', rtol=1e-6)
    T.check(m.distances is m.distances and m.times is m.times, 'calculators are kept')
    fr.check(T)
    T.state('model', how)
    T.sig(how, v, z)


def inverse(rng, T):
    """Redshift at comoving distance undoes the forward function."""
    m, v, how = model_of(rng, T)
    r = Ref(v['hubble'], v['omega_m0'], v['omega_b0'], v['t_cmb'])
    if chance(rng, .15):
        d = float(pick(rng, [0., 1e-6, -3.]))
        T.note(model=how, d=d)
        z = m.redshifts.at_comoving(d)
        T.close(np.asarray(z), np.asarray(1e-4 / DH), 'clipped distance', rtol=1e-2, d=d)
        T.ev('clipped')
    else:
        z, zk = redshifts(rng)
        z = np.clip(z, 1e-3, 40.)
        d = r.dc(z)
        if zk == 'float':
            d, z = float(d), float(z)
        fr = Frozen(d=d)
        T.note(model=how, z=z)
        kw = {} if chance(rng, .6) else dict(zmax=100.)
        g = np.asarray(m.redshifts.at_comoving(d, **kw))
        T.close(g, np.asarray(z), 'redshift at comoving distance', rtol=2e-5, atol=2e-6)
        T.close(np.asarray(m.distances.comoving_at(g)), np.asarray(d), 'forward of inverse', rtol=3e-5, atol=1e-4)
        fr.check(T)
        T.ev('inverted', np.size(g))
    T.sig(how, v, d)


def shipped(rng, T):
    """Predefined models: shared, kept, described by their parameters."""
    pre = predefined if chance(rng, .5) else _Predefined()
    names = list(rng.permutation(list(PUBLISHED)))[:int(rng.integers(1, 6))]
    T.note(names=names)
    T.check({'tng', 'eagle'} <= set(pre.to_simple_repr()['models']), 'the two default models are loaded at once')
    for n in names:
        m = pre[n]
        T.check(pre[n] is m, 'a predefined model is loaded twice', name=n)
        for k, w in zip(KEYS, PUBLISHED[n]):
            T.close(np.asarray(getattr(m, k)), np.asarray(w), f'{n}.{k}', rtol=1e-12)
        rep = m.to_simple_repr()
        T.eq({p['name']: p['value'] for p in rep['params'] if p['name'] in KEYS}, {k: w for k, w in zip(KEYS, PUBLISHED[n])}, 'description')
        q = pre.to_simple_repr()['models']
        T.check(n in q and q[n]['name'] == m.name, 'listed among the models')
        T.close(np.asarray(float(m.unit_system.u_l.value)), np.asarray(MPC / m.hubble), 'length unit', rtol=1e-9)
        T.ev('predefined')
    T.raises(Exception, lambda: pre['no_such_model'], 'unknown model')
    T.sig(names)


def nr(rng, T):
    """Model without radiation (compiled)."""
    if chance(rng, .1):
        m, h, om, ob, ns, s8 = _planck_2015, .6774, .3089, .0486, .9667, .8159
    else:
        h, om, ob, _ = parameters(rng)
        ns, s8 = float(.9 + .2 * rng.random()), float(.5 + rng.random())
        m = _FlatLambdaCDMNR(h, om, ob, ns, s8)
    T.note(h=h, om=om, ob=ob, ns=ns, s8=s8)
    T.eq((m.hubble, m.omega_m0, m.omega_b0, m.n_spec, m.sigma_8), (h, om, ob, ns, s8), 'parameters')
    T.close(m.omega_l0, 1 - om, 'omega_l0')
    T.close(m.baryon_fraction(), ob / om, 'baryon fraction', rtol=1e-12)
    r = Ref(h, om, ob, 0.)
    d = m.densities()
    u = m.us
    T.close([u.u_length, u.u_time, u.u_mass], [MPC / h, GYR / h, 1e10 * MSUN / h], 'units', rtol=1e-9)
    for _ in range(4):
        z = float(pick(rng, [0., rng.random() * 3, rng.random() * 1100, -.5 * rng.random()]))
        a = 1 + z
        e = float(r.e(z))
        T.close(m.efunc(z), e, 'E(z)', rtol=1e-10)
        T.close(m.efunc_sqr(z), e * e, 'E(z)^2', rtol=1e-10)
        T.close(m.omega_m(z), om * a**3 / e**2, 'Om(z)', rtol=1e-10)
        T.close(m.omega_l(z), (1 - om) / e**2, 'Ol(z)', rtol=1e-10, atol=1e-14)
        T.close(m.big_hubble(z), H0 * e, 'H(z)', rtol=1e-7)
        T.close(m.z2a(z), 1 / a, 'z2a', rtol=1e-12)
        T.close(m.a2z(1 / a), z, 'a2z', rtol=1e-9, atol=1e-12)
        T.close(d.crit0(), 27.75366, 'critical density', rtol=1e-5)
        T.close(d.crit(z), 27.75366 * e**2, 'critical density at z', rtol=1e-5)
        T.close(d.mean0(), 27.75366 * om, 'mean density', rtol=1e-5)
        T.close(d.mean(z), 27.75366 * om * a**3, 'mean density at z', rtol=1e-5)
        R = float(10.**rng.uniform(-4, 3))
        M = 4 / 3 * np.pi * R**3 * 27.75366 * om
        T.close(d.r_to_m(R), M, 'mass within radius', rtol=1e-5)
        T.close(d.m_to_r(d.r_to_m(R)), R, 'radius of mass', rtol=1e-10)
        T.close(d.m_to_r(M), R, 'radius of mass', rtol=1e-5)
        T.ev('evaluation')
    # against the general model with radiation switched off
    if chance(rng, .2):
        g = LambdaCDM.from_parameters(dict(hubble=h, omega_m0=om, omega_l0=1 - om, omega_b0=ob, t_cmb=0.))
        T.close(np.asarray(g.big_hubble(z)), np.asarray(m.big_hubble(z)), 'two models disagree', rtol=1e-6)
        T.close(np.asarray(g.rho_matter(z)), np.asarray(d.mean(z)), 'two models disagree on density', rtol=1e-5)
        T.ev('two models')
    T.sig(h, om, ob)


MONITORS = [
    Monitor('c21.background', background, 900, 12000, shards=4, need={'quantity': 3000}),
    Monitor('c21.inverse', inverse, 300, 4000, shards=2, need={'inverted': 300}),
    Monitor('c21.predefined', shipped, 60, 600, need={'predefined': 60}),
    Monitor('c21.nr', nr, 600, 8000, shards=1, need={'evaluation': 1000}),
]
