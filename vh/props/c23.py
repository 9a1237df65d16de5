"""C23: virial relations, NFW profile and tabulated halo relations."""
import os
import dataclasses
from pathlib import Path
import numpy as np
import h5py
from pyhipp.astro.cosmology.model import LambdaCDM, predefined
from pyhipp.astro.cosmology.halo_theory import HaloTheory, NFWProfileCalculator, VirialProperties
from ..core import Monitor
from ..gen import pick, chance, Frozen, float_grid
from .. import fakehmf
from .c21 import Ref, parameters, PUBLISHED, KEYS, G, MPC, MSUN

RULE = ('predefined and random cosmologies, masses 1e-8 to 1e8 (1e10 Msun/h) and redshifts 0-20 as scalars and broadcast arrays; virial relations from their definitions in SI units; '
        'tables: the shipped ones and synthetic ones with uneven nodes. Identity is (model, arguments).')
GINT = G * (1e10 * MSUN) / MPC * 1e-6          # G in (km/s)^2 Mpc / 1e10 Msun (h cancels)
DATA = ['tng', 'eagle', 'elucid']



def carroll(om, z):
    def g(z):
        e2 = om * (1 + z)**3 + 1 - om
        m, l = om * (1 + z)**3 / e2, (1 - om) / e2
        return 2.5 * m / (m**(4 / 7) - l + (1 + m / 2) * (1 + l / 70)) / (1 + z)
    return g(z) / g(0.)


def model_of(rng):
    if chance(rng, .4):
        n = pick(rng, list(PUBLISHED))
        v = dict(zip(KEYS, PUBLISHED[n]))
        return predefined[n], v
    h, om, ob, t = parameters(rng)
    v = dict(hubble=h, omega_m0=om, omega_l0=1 - om, omega_b0=ob, t_cmb=t)
    return LambdaCDM.from_parameters(v), v


def shaped(rng, f):
    """Scalars, arrays, and arrays that broadcast against each other."""
    s = pick(rng, [(), (), (4,), (1,), (2, 3), (3, 1)])
    x = f(s)
    return float(x) if s == () else x


def virial(rng, T):
    """Mass, radius, density, velocity and time of haloes."""
    m, v = model_of(rng)
    h = HaloTheory(m.data_dir / 'data.hdf5', m) if chance(rng, .3) else m.halo_theory
    M = shaped(rng, lambda s: 10.**rng.uniform(-8, 8, size=s))
    z = shaped(rng, lambda s: np.where(rng.random(s) < .2, 0., rng.random(s) * pick(rng, [1., 20., -.5])))
    if np.ndim(M) and np.ndim(z):
        try:
            np.broadcast_shapes(np.shape(M), np.shape(z))
        except ValueError:
            z = 1.5
    f = float(pick(rng, [200., 500., 178., 1 + 2000 * rng.random()]))
    if chance(rng, .25):        # several definitions at once
        f = rng.uniform(50., 2500., size=np.broadcast_shapes(np.shape(M), np.shape(z)) or 3)
    kind = pick(rng, ['mean', 'crit'])
    fr = Frozen(M=M, z=z, f=f)
    T.note(v=v, M=M, z=z, f=f, kind=kind)
    kw = {}
    if np.ndim(f) or f != 200. or chance(rng, .3):
        kw['f'] = f
    if np.ndim(z) or z != 0. or chance(rng, .5):
        kw['z'] = z
    r = Ref(v['hubble'], v['omega_m0'], v['omega_b0'], v['t_cmb'])
    a = 1 / (1 + np.asarray(z, float))
    rho = 27.75366 * f * (v['omega_m0'] if kind == 'mean' else r.e(z)**2 * a**3)
    rho = np.broadcast_to(rho, np.broadcast_shapes(np.shape(z), np.shape(f)))
    fn = h.rho_vir_mean if kind == 'mean' else h.rho_vir_crit
    T.close(np.asarray(fn(**kw)), rho, 'virial density', rtol=1e-5)
    p = (h.vir_props_mean if kind == 'mean' else h.vir_props_crit)(M, **kw)
    T.check(isinstance(p, VirialProperties), 'type')
    R = (np.asarray(M) / (4 / 3 * np.pi * rho))**(1 / 3)
    V = np.sqrt(GINT * np.asarray(M) / (R * a))           # km/s: h cancels
    T.close(np.asarray(p.m), np.asarray(M), 'mass')
    T.close(np.asarray(p.rho), rho, 'density', rtol=1e-5)
    T.close(np.asarray(p.r), R, 'comoving radius', rtol=1e-5)
    T.close(np.asarray(p.r_phy), R * a, 'physical radius', rtol=1e-5)
    u = MPC / 3.15576e16 / 1e3                            # km/s
    T.close(np.asarray(p.v), V / u, 'velocity', rtol=1e-5)
    T.close(np.asarray(p.t_dyn), R * a / (V / u), 'dynamical time', rtol=1e-5)
    # relations among what was returned
    T.close(4 / 3 * np.pi * np.asarray(p.r)**3 * p.rho, np.broadcast_to(M, R.shape), 'enclosed mass', rtol=1e-9)
    T.close(np.asarray(h.r_vir(M, rho)), R, 'r_vir', rtol=1e-9)
    T.close(np.asarray(h.v_vir(M, R * a)), V / u, 'v_vir', rtol=1e-5)
    T.close(np.asarray(h.v_vir(M, R * a, to_kmps=True)), V, 'v_vir in km/s', rtol=1e-5)
    T.close(np.asarray(h.v_vir(M, R * a, to_kmps=True)), np.asarray(h.v_vir(M, R * a)) * u, 'one velocity in two units', rtol=1e-9)
    if kind == 'crit' and v['t_cmb'] == 0 and np.ndim(f) == 0 and f == 200.:
        # V = 10 H R for 200 times critical
        T.close(np.asarray(p.v), 10 * np.asarray(m.big_hubble(z)) * np.asarray(p.r_phy), 'V = 10 H R', rtol=1e-5)
        T.ev('V=10HR')
    for x in np.ravel(M)[:2] if not np.ndim(f) else ():
        T.close(float(np.ravel(h.r_vir(8 * x, rho))[0] / np.ravel(h.r_vir(x, rho))[0]), 2., 'radius grows as the cube root', rtol=1e-9)
    fr.check(T)
    T.ev('virial', R.size)
    T.sig(v, M, z, f, kind)


def nfw(rng, T):
    """Concentration and maximal velocity."""
    n = pick(rng, [None, None, 64, 400])
    h = predefined[pick(rng, DATA)].halo_theory
    f = h.nfw_profile if n is None else NFWProfileCalculator(h, n_interp=n)
    x = np.geomspace(1e-3, 1e4, 7) * (.9 + .2 * rng.random())
    T.close(f.mu(x), np.log1p(x) - x / (1 + x), 'mu', rtol=1e-9, atol=1e-14)
    T.check(np.all(np.diff(f.mu(np.sort(x))) > 0), 'enclosed mass is not monotone')
    # local maximum of the circular velocity of an NFW halo
    xm = 2.162581587
    ref = lambda c: np.sqrt(c / (np.log1p(c) - c / (1 + c)) * (np.log1p(xm) - xm / (1 + xm)) / xm)
    c = shaped(rng, lambda s: np.exp(rng.uniform(np.log(2.17), np.log(999.), size=s)))
    fr = Frozen(c=c)
    T.note(c=c, n=n)
    V = f.c_to_v_max2vir(c)
    T.close(np.asarray(V), np.asarray(ref(np.asarray(c))), 'maximal over virial velocity', rtol=1e-5)
    fr2 = Frozen(V=V)
    g = f.v_max2vir_to_c(V)
    tol = np.where(np.asarray(c) < 2.6, .03, np.where(np.asarray(c) < 4, .003, 2e-4))
    if n == 64:
        tol = np.where(np.asarray(c) < 5, .2, .01)
    bad = np.abs(np.asarray(g) / c - 1) > tol
    T.check(np.shape(g) == np.shape(c) and not bad.any(), 'concentration of the velocity ratio', c=c, got=g)
    T.close(np.asarray(f.c_to_v_max2vir(g)), np.asarray(V), 'velocity ratio of the concentration', rtol=3e-4 if n != 64 else 4e-3)
    q = np.sort(np.ravel(c))
    T.check(np.all(np.diff(f.v_max2vir_to_c(f.c_to_v_max2vir(q))) >= 0), 'concentration is not monotone')
    T.close(np.asarray(f.v_max2vir_to_c(f.c_to_v_max2vir(1000.))), np.asarray(1000.), 'upper end', rtol=1e-9)
    T.close(np.asarray(f.v_max2vir_to_c(f.c_to_v_max2vir(2.1626))), np.asarray(2.1626), 'lower end', rtol=1e-9)
    fr.check(T)
    fr2.check(T)
    T.ev('concentration', np.size(c))
    T.sig(c, n)


def tables(rng, T):
    """Tabulated relations: exact at nodes, on the chord between them."""
    if chance(rng, .4):
        n = pick(rng, DATA)
        m = predefined[n]
        file, h = m.data_dir / 'data.hdf5', m.halo_theory
    else:
        n = 'synthetic'
        d = Path(os.environ['VH_CASEDIR'])
        file = d / 'data.hdf5'
        k1, k2 = int(rng.integers(2, 30)), int(rng.integers(2, 30))
        with h5py.File(file, 'w') as f:
            f['LgDeltaC/z'] = float_grid(rng, k1, 0., 20.)
            f['LgDeltaC/lg_delta_c'] = np.sort(rng.random(k1))
            f['LgSigma/lg_m'] = float_grid(rng, k2, -6., 7.)
            f['LgSigma/lg_sigma'] = -np.sort(rng.normal(size=k2))
            f['LgSigma/dlg_sigma_dlg_m'] = -rng.random(k2)
        h_, om, ob, t = parameters(rng)
        m = LambdaCDM.from_parameters(dict(hubble=h_, omega_m0=om, omega_l0=1 - om, omega_b0=ob, t_cmb=t), data_dir=d)
        h = m.halo_theory if chance(rng, .5) else HaloTheory(str(file) if chance(rng, .5) else file, m)
    T.check(m.halo_theory is m.halo_theory, 'halo theory is kept')
    T.eq(str(h.data_file), str(file), 'data file')
    with h5py.File(file, 'r') as f:
        tab = {k: (f[p][()], f[q][()]) for k, p, q in (
            ('lg_delta_c', 'LgDeltaC/z', 'LgDeltaC/lg_delta_c'), ('lg_sigma', 'LgSigma/lg_m', 'LgSigma/lg_sigma'),
            ('dlg_sigma_dlg_m', 'LgSigma/lg_m', 'LgSigma/dlg_sigma_dlg_m'))}
    T.note(table=n, nodes={k: len(x) for k, (x, _) in tab.items()})
    for k in rng.permutation(list(tab)):
        x, y = tab[k]
        fn = getattr(h, k)
        T.close(fn(x), y, f'{k} at the nodes', rtol=1e-12, atol=1e-13)
        q = rng.uniform(x[0], x[-1], size=pick(rng, [(), (5,), (2, 2)]))
        q = float(q) if np.ndim(q) == 0 and chance(rng, .5) else q
        fr = Frozen(q=q)
        w = np.interp(q, x, y)
        T.close(np.asarray(fn(q)), np.asarray(w), f'{k} between nodes', rtol=1e-9, atol=1e-12)
        T.close(np.asarray(fn(q)), np.asarray(w), f'{k} between nodes, again', rtol=1e-9, atol=1e-12)
        fr.check(T)
        w = x[-1] - x[0]
        out = pick(rng, [x[0] - .3 * w - .01, x[-1] + .3 * w + .01, np.array([x[0], x[-1] + 1.])])
        T.raises(ValueError, lambda: fn(out), f'{k} outside its table', at=out)
        T.ev('table')
    if n in DATA:
        # shipped tables agree with the theory they tabulate
        z = float(rng.uniform(0., 19.9))
        T.close(10.**h.lg_delta_c(z), np.asarray(1.686 / carroll(float(m.omega_m0), z)), 'collapse threshold', rtol=.005)
        lm = rng.uniform(-5.9, 6.6)
        T.close(np.asarray((h.lg_sigma(lm + .1) - h.lg_sigma(lm - .1)) / .2), np.asarray(h.dlg_sigma_dlg_m(lm)), 'slope', rtol=.05, atol=.005)
        T.ev('shipped')
        if chance(rng, .3):
            rep = h.to_simple_repr()
            T.eq(rep['data_file'], str(file), 'description')
    if chance(rng, .3):
        rep = h.to_simple_repr()['__interp']
        cols = {'z': tab['lg_delta_c'][0], 'lg_m': tab['lg_sigma'][0]} | {k: y for k, (_, y) in tab.items()}
        for k, v in cols.items():
            T.close(rep[k]['range'], [v[0], v[-1]], f'range of the table of {k}', rtol=1e-12)
            T.close(rep[k]['step'], (v[-1] - v[0]) / (len(v) - 1), f'step of the table of {k}', rtol=1e-8, atol=1e-12)
        T.ev('described')
    T.raises(ValueError, lambda: h.mass_function(1., 4., .1, 0., mass_def='nonsense'), 'unknown mass definition')
    T.sig(n, q)


def mass_function(rng, T):
    """Halo mass functions: what the calculator is asked for, and how its answer is returned."""
    h = predefined[pick(rng, DATA)].halo_theory
    hist = []
    for _ in range(int(rng.integers(1, 4))):    # earlier calls do not matter
        lo, z, d = float(rng.uniform(-3, 3)), float(rng.uniform(0, 8)), float(pick(rng, [.1, .05, .25]))
        hi = lo + d * int(rng.integers(1, 30))
        mdef = pick(rng, [None, '200crit', '200mean', 'custom'])
        user = pick(rng, [None, {}, {'hmf_model': 'SMT'}, {'mdef_params': {'overdensity': 500.}}, {'mdef_model': 'FOF', 'hmf_model': 'PS'}])
        kw = {} if mdef is None else {'mass_def': mdef}
        if user is not None:
            kw['impl_kw'] = dict(user)
        hist.append((lo, hi, d, z, mdef, user))
        n0 = len(fakehmf.CALLS)
        v = h.mass_function(lo, hi, d, z, **kw)
        T.note(calls=hist)
        T.eq(len(fakehmf.CALLS), n0 + 1, 'calculations')
        got = dict(fakehmf.CALLS[-1])
        T.close(np.asarray(got.pop('Mmin')), np.asarray(lo + 10.), 'lower mass asked for', rtol=1e-12)
        top = got.pop('Mmax')
        T.check(hi + 10. <= top < hi + 10. + .5 * d, 'upper mass asked for does not just cover the interval', top=top)
        T.eq(got.pop('z'), z, 'redshift asked for')
        T.eq(got.pop('dlog10m'), d, 'mass step asked for')
        want = {} if mdef == 'custom' else {'mdef_model': 'SOMean' if mdef == '200mean' else 'SOCritical', 'mdef_params': {'overdensity': 200.}}
        T.eq(got, want | (user or {}), 'mass definition and model asked for')
        T.close(np.asarray(v.lgM), lo + d * np.arange(len(v.lgM)), 'masses in 1e10 Msun/h', rtol=1e-9, atol=1e-9)
        T.check(abs(v.lgM[-1] - hi) < .1 * d, 'the interval ends at the upper mass', last=v.lgM[-1])
        M = 10.**(v.lgM + 10)
        T.close(np.asarray(v.dn_dlgM), 1e-2 * (M / 1e12)**-.9 * np.exp(-M / 1e14) / (1 + z), 'abundance per log mass', rtol=1e-9)
        T.ev('mass_function')
    T.raises(ValueError, lambda: h.mass_function(1., 4., .1, 0., mass_def=pick(rng, ['nonsense', '200', 'vir', ''])), 'unknown mass definition')
    T.sig(hist)


MONITORS = [
    Monitor('c23.virial', virial, 1500, 25000, shards=2, need={'virial': 2000}),
    Monitor('c23.nfw', nfw, 1200, 15000, need={'concentration': 1000}),
    Monitor('c23.tables', tables, 800, 10000, need={'table': 1000, 'shipped': 100}),
    Monitor('c23.mass_function', mass_function, 300, 5000, setup=fakehmf.install, need={'mass_function': 300}),
]
