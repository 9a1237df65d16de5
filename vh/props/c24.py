"""C24: unit systems and sexagesimal angles."""
from fractions import Fraction
import numpy as np
import astropy.units as au
from pyhipp.astro.quantity import UnitSystem
from pyhipp.astro.quantity.unit_system import _UnitSystem, _Constants, _constants
from pyhipp.astro.cosmology.flat_lambda_cdm_nr import _FlatLambdaCDMNR, _make_us_for_cosmology
from pyhipp.astro.coords import cvt
from ..core import Monitor
from ..gen import pick, chance

RULE = ('base units over 20 decades, cosmological systems for any Hubble parameter, physical formulas evaluated in two systems; '
        'sexagesimal parts and strings of any sign evaluated in rational arithmetic. Identity is (base units | angle).')

PC, YR, MSUN = 3.085677581491367e16, 31557600., 1.988409870698051e30
SI = dict(c_gravity=6.6743e-11, c_m_sun=MSUN, c_light_speed=299792458., c_m_p=1.67262192369e-27, c_h_planck=6.62607015e-34)
# powers of (length, time, mass)
DIM = dict(u_l=(1, 0, 0), u_t=(0, 1, 0), u_m=(0, 0, 1), u_v=(1, -1, 0), u_e=(2, -2, 1), u_power=(2, -3, 1), u_angular_momentum=(2, -1, 1),
           u_gravity_constant=(3, -2, -1), u_density=(-3, 0, 1), u_big_hubble=(0, -1, 0),
           c_gravity=(3, -2, -1), c_m_sun=(0, 0, 1), c_light_speed=(1, -1, 0), c_m_p=(0, 0, 1), c_h_planck=(2, -1, 1))
COEF = dict(u_l_to_pc=('u_l', PC), u_t_to_yr=('u_t', YR), u_m_to_sol=('u_m', MSUN), u_v_to_kmps=('u_v', 1e3), u_e_to_erg=('u_e', 1e-7), u_power_to_ergps=('u_power', 1e-7))


def base(rng):
    if chance(rng, .3):
        h = float(pick(rng, [.7, 1., .6774, .4 + rng.random()]))
        return 'cosmology', h, (1e6 * PC / h, 1e9 * YR / h, 1e10 * MSUN / h)
    special = ((1., .01, 1e3 * PC, 1.495978707e11), (1., 3600., 1e9 * YR), (1., 1e-3, MSUN, 1e10 * MSUN))
    return 'si', None, tuple(float(pick(rng, sp)) if chance(rng, .3) else float(10.**rng.uniform(lo, hi)) for (lo, hi), sp in zip(((-3, 25), (-3, 18), (-3, 42)), special))


def _powers(u):
    u = u.decompose()
    d = dict(zip([str(b) for b in u.bases], u.powers))
    return [float(d.get(k, 0)) for k in ('m', 's', 'kg')]


def dims(k, b):
    return float(np.prod([u**p for u, p in zip(b, DIM[k])]))


def system(rng, T):
    """Derived units and constants; formulas in two systems."""
    us = []
    for _ in range(2):
        how, h, b = base(rng)
        u = UnitSystem.create_for_cosmology(h) if how == 'cosmology' else (
            UnitSystem(*b) if chance(rng, .5) else UnitSystem(u_length_in_m=b[0], u_time_in_s=b[1], u_mass_in_kg=b[2], name='mine'))
        us.append((u, b))
        T.note(how=how, h=h, base=b)
        T.state('how', how)
        keys = list(rng.permutation([k for k in DIM if k[0] == 'u']))
        for k in keys:
            q = getattr(u, k)
            T.close(q.value, dims(k, b), f'unit {k}', rtol=1e-9)
            p = DIM[k]
            T.check(np.all(np.isclose(_powers(q.unit), p)), f'dimension of {k}')
            T.ev('unit')
        for k, (x, y) in COEF.items():
            T.close(getattr(u, k), dims(x, b) / y, f'coefficient {k}', rtol=1e-9)
            T.ev('coefficient')
        for k, v in SI.items():
            T.close(getattr(u, k), v / dims(k, b), f'constant {k}', rtol=1e-5 if k == 'c_gravity' else 1e-7)
            T.ev('constant')
        rep = u.to_simple_repr()
        T.eq(rep, {k: str(getattr(u, k)) for k in ('u_l', 'u_t', 'u_m', 'u_v')}, 'description')
    # one physical state in two systems
    M, R, v = (10.**rng.uniform(30, 45), 10.**rng.uniform(10, 23), 10.**rng.uniform(3, 8))
    res = []
    for u, b in us:
        m, r, w = M / b[2], R / b[0], v / (b[0] / b[1])
        res.append([u.c_gravity * m / (r * w * w), r / w * b[1], 2 * u.c_gravity * m / u.c_light_speed**2 * b[0], m * w**2 * u.u_e_to_erg,
                    w * u.u_v_to_kmps, m * u.u_m_to_sol, m / u.c_m_sun, r * u.u_l_to_pc, w / u.c_light_speed, u.c_h_planck / (u.c_m_p * w * r)])
    T.close(res[0], res[1], 'a formula depends on the unit system', rtol=1e-9)
    T.close(res[0][2], 2 * 6.6743e-11 * M / 299792458.**2, 'Schwarzschild radius', rtol=1e-5)
    T.ev('formula', len(res[0]))
    T.sig([b for _, b in us])


def compiled(rng, T):
    """Compiled unit systems and constants."""
    c = _Constants() if chance(rng, .5) else _constants
    w = dict(pc_to_m=PC, kpc_to_m=1e3 * PC, mpc_to_m=1e6 * PC, yr_to_s=YR, kyr_to_s=1e3 * YR, myr_to_s=1e6 * YR, gyr_to_s=1e9 * YR, msun_to_kg=MSUN,
             light_speed=299792458., proton_mass=1.67262192369e-27, gravity_constant=6.6743e-11, solar_mass=MSUN, salpeter_time=450.49e6 * YR)
    for k, x in w.items():
        T.close(getattr(c, k), x, f'constant {k}', rtol=1e-9)
    how, h, b = base(rng)
    t = float(pick(rng, [1., 10.**rng.uniform(-3, 6)]))
    if how == 'cosmology':
        t = 1.
        u = _make_us_for_cosmology(h) if chance(rng, .5) else _FlatLambdaCDMNR(h, .3, .05, .96, .8).us
    else:
        u = _UnitSystem(*b, t)
    T.note(base=b, how=how, t=t)
    L, S, Mk = b
    ref = dict(u_length=L, u_time=S, u_mass=Mk, u_temperature=t, u_gravity_constant=L**3 / S**2 / Mk, u_density=Mk / L**3, u_big_hubble=1 / S, u_velocity=L / S,
               u_velocity_in_kmps=L / S / 1e3, proton_mass=1.67262192369e-27 / Mk, solar_mass=MSUN / Mk, pc=PC / L, yr=YR / S, salpeter_time=450.49e6 * YR / S,
               light_speed=299792458. * S / L, gravity_constant=6.6743e-11 / (L**3 / S**2 / Mk))
    for k, x in ref.items():
        T.close(getattr(u, k), x, f'compiled {k}', rtol=1e-9)
        T.ev('compiled')
    g = UnitSystem(*b)
    T.close([u.gravity_constant, u.solar_mass, u.light_speed, u.proton_mass, u.u_velocity_in_kmps],
            [g.c_gravity, g.c_m_sun, g.c_light_speed, g.c_m_p, g.u_v_to_kmps], 'two implementations disagree', rtol=1e-5)
    T.sig(b, t)


def angles(rng, T):
    """d:m:s and h:m:s to degrees."""
    sgn = pick(rng, [1, 1, -1, -1])
    d = int(pick(rng, [0, 0, rng.integers(0, 360)]))
    m = int(pick(rng, [0, rng.integers(0, 60)]))
    nd = int(rng.integers(0, 6))
    s = int(rng.integers(0, 60 * 10**nd))
    sec = f'{s // 10**nd:02d}' + (f'.{s % 10**nd:0{nd}d}' if nd else '')
    exact = sgn * (Fraction(d) + Fraction(m, 60) + Fraction(s, 3600 * 10**nd))
    form = pick(rng, ['str', 'str', 'lead', 'all', 'ints', 'list'])
    if form == 'str':
        fmt = pick(rng, ['{}{:d}:{:d}:{}', '{}{:02d}:{:02d}:{}', '{}{:03d}:{:02d}:{}', ' {}{:d} : {:02d} : {} '])
        x = fmt.format('-' if sgn < 0 else pick(rng, ['', '+']), d, m, sec)
    elif form in ('lead', 'list'):
        x = (float(sgn) * d, float(m), float(sec)) if d or sgn > 0 else (-0., float(m), float(sec))
        x = list(x) if form == 'list' else tuple(np.float64(v) for v in x) if chance(rng, .3) else x
    elif form == 'all':
        x = tuple(float(sgn) * v for v in (d, m, float(sec)))
    else:
        if sgn < 0 and d == 0:
            d, exact = 7, exact - 7
        x = (sgn * d, m, float(sec))
    T.note(form=form, x=x)
    T.close(cvt.dms_to_deg(x), float(exact), 'degrees of d:m:s', rtol=1e-12, atol=1e-13, x=x)
    T.close(cvt.hms_to_deg(x), float(15 * exact), 'degrees of h:m:s', rtol=1e-12, atol=1e-12, x=x)
    # and back
    v = abs(cvt.dms_to_deg(x))
    dd = int(v)
    mm = int((v - dd) * 60)
    ss = ((v - dd) * 60 - mm) * 60
    y = f'{"-" if sgn < 0 else ""}{dd}:{mm}:{float(ss)!r}'
    T.close(cvt.dms_to_deg(y), float(exact), 'there and back', rtol=1e-10, atol=1e-11, x=x, y=y)
    T.state('form', (form, sgn, d == 0))
    T.ev('angle')
    T.sig(x)


MONITORS = [
    Monitor('c24.system', system, 400, 8000, shards=3, need={'unit': 3000, 'formula': 1000}),
    Monitor('c24.compiled', compiled, 700, 12000, need={'compiled': 3000}),
    Monitor('c24.angles', angles, 6000, 150000, need={'angle': 3000}),
]
