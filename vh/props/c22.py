"""C22: transfer functions, growth, power spectra and variances."""
import numpy as np
from pyhipp.astro.cosmology.flat_lambda_cdm_nr import _FlatLambdaCDMNR, _planck_2015
from pyhipp.astro.cosmology import power_spectrum as ps
from ..core import Monitor
from ..gen import pick, chance
from .c21 import parameters

RULE = ('random flat parameter sets; transfer functions re-implemented from Eisenstein & Hu (1998) and (1999), growth from Carroll et al. (1992) and from its '
        'defining integral, variances by a fine trapezoid rule over ln k in [-23, 23]. Identity is the parameter set.')


def eh99(k, om, ob, onu, nnu, ol, h, z=0., with_nu=False):
    """Eisenstein & Hu 1999; k in h/Mpc."""
    th = 2.728 / 2.7
    ob, onu, nnu = max(ob, 0) or 1e-5, max(onu, 0) or 1e-5, float(max(nnu, 1))
    m, b = om * h * h, ob * h * h
    fb, fn = ob / om, onu / om
    fc = 1 - fb - fn
    fcb, fnb = fc + fb, fb + fn
    zeq = 2.5e4 * m / th**4
    b1 = .313 * m**-.419 * (1 + .607 * m**.674)
    b2 = .238 * m**.223
    zd = 1291 * m**.251 / (1 + .659 * m**.828) * (1 + b1 * b**b2)
    yd = zeq / (1 + zd)
    s = 44.5 * np.log(9.83 / m) / np.sqrt(1 + 10 * b**.75)
    pc, pcb = (5 - np.sqrt(1 + 24 * fc)) / 4, (5 - np.sqrt(1 + 24 * fcb)) / 4
    anu = fc / fcb * (5 - 2 * (pc + pcb)) / (5 - 4 * pcb) * (1 - .553 * fnb + .126 * fnb**3) \
        / (1 - .193 * np.sqrt(fn * nnu) + .169 * fn * nnu**.2) * (1 + yd)**(pcb - pc) \
        * (1 + (pc - pcb) / 2 * (1 + 1 / ((3 - 4 * pc) * (7 - 4 * pcb))) / (1 + yd))
    bc = 1 / (1 - .949 * fnb)
    kk = k * h
    q = kk * th**2 / m
    sa = np.sqrt(anu)
    geff = m * (sa + (1 - sa) / (1 + (.43 * kk * s)**4))
    qe = kk * th**2 / geff
    L = np.log(2.71828 + 1.84 * bc * sa * qe)
    Cc = 14.4 + 325 / (1 + 60.5 * qe**1.11)
    tsup = L / (L + Cc * qe**2)
    qn = 3.92 * q * np.sqrt(nnu / fn)
    with np.errstate(divide='ignore'):
        bk = 1 + 1.2 * fn**.64 * nnu**(.3 + .6 * fn) / (qn**-1.6 + qn**.8)
    g2 = (1 + z)**2 * (om * (1 + z) + 1 - om - ol) + ol
    omz, olz = om * (1 + z)**3 / g2, ol / g2
    d1 = (zeq / (1 + z)) * 2.5 * omz / (omz**(4 / 7) - olz + (1 + omz / 2) * (1 + olz / 70))
    yfs = 17.2 * fn * (1 + .488 * fn**(-7 / 6)) * (nnu * q / fn)**2
    x = (d1 / (1 + yfs))**.7
    if with_nu:
        dg = (fcb**(.7 / pcb) + x)**(pcb / .7) * d1**(1 - pcb)
    else:
        dg = (1 + x)**(pcb / .7) * d1**(1 - pcb)
    return tsup * bk * dg / d1


def eh98(k, om, fb, h, tcmb=2.728):
    """Eisenstein & Hu 1998: full, baryon and CDM transfer functions."""
    th = tcmb / 2.7
    m = om * h * h
    b = m * fb
    k = np.abs(np.asarray(k, float)) * h
    zeq, keq = 2.5e4 * m * th**-4, .0746 * m * th**-2
    b1 = .313 * m**-.419 * (1 + .607 * m**.674)
    b2 = .238 * m**.223
    zd = 1291 * m**.251 / (1 + .659 * m**.828) * (1 + b1 * b**b2)
    R = lambda z: 31.5 * b * th**-4 * 1e3 / z
    rd, req = R(1 + zd), R(zeq)
    s = 2 / (3 * keq) * np.sqrt(6 / req) * np.log((np.sqrt(1 + rd) + np.sqrt(rd + req)) / (1 + np.sqrt(req)))
    ks = 1.6 * b**.52 * m**.73 * (1 + (10.4 * m)**-.95)
    a1 = (46.9 * m)**.670 * (1 + (32.1 * m)**-.532)
    a2 = (12. * m)**.424 * (1 + (45. * m)**-.582)
    ac = a1**-fb * a2**-(fb**3)
    c1 = .944 / (1 + (458 * m)**-.708)
    c2 = (.395 * m)**-.0266
    bc = 1 / (1 + c1 * ((1 - fb)**c2 - 1))
    q = k / (13.41 * keq)

    def t0(a, be):
        C = 14.2 / a + 386 / (1 + 69.9 * q**1.08)
        l = np.log(2.718282 + 1.8 * be * q)
        return l / (l + C * q * q)
    with np.errstate(divide='ignore', invalid='ignore'):
        ks_ = k * s
        f = 1 / (1 + (ks_ / 5.4)**4)
        tc = f * t0(1., bc) + (1 - f) * t0(ac, bc)
        y = zeq / (1 + zd)
        Gy = y * (-6 * np.sqrt(1 + y) + (2 + 3 * y) * np.log((np.sqrt(1 + y) + 1) / (np.sqrt(1 + y) - 1)))
        ab = 2.07 * keq * s * (1 + rd)**-.75 * Gy
        bn = 8.41 * m**.435
        bb = .5 + fb + (3 - 2 * fb) * np.sqrt((17.2 * m)**2 + 1)
        st = s / (1 + (bn / ks_)**3)**(1 / 3)
        j0 = np.sinc(k * st / np.pi)
        tb = (t0(1., 1.) / (1 + (ks_ / 5.2)**2) + ab / (1 + (bb / ks_)**3) * np.exp(-(k / ks)**1.4)) * j0
    one = k == 0
    tc, tb = np.where(one, 1., tc), np.where(one, 1., tb)
    return fb * tb + (1 - fb) * tc, tb, tc


def carroll(om, z):
    def g(z):
        e2 = om * (1 + z)**3 + 1 - om
        m, l = om * (1 + z)**3 / e2, (1 - om) / e2
        return 2.5 * m / (m**(4 / 7) - l + (1 + m / 2) * (1 + l / 70)) / (1 + z)
    return g(z) / g(0.)


def growth_exact(om, z):
    """D = H int da / (a H)^3, normalised."""
    def g(z):
        a = np.linspace(0, 1 / (1 + z), 20001)[1:]
        f = (a / (om + (1 - om) * a**3))**1.5
        return np.sqrt(om * (1 + z)**3 + 1 - om) * np.trapezoid(np.r_[0, f], np.r_[0, a])
    return g(z) / g(0.)


def window(x):
    with np.errstate(all='ignore'):
        return np.where(x < 1e-2, 1 - x * x / 10 + x**4 / 280, 3 * (np.sin(x) - x * np.cos(x)) / x**3)


LNK = np.arange(-23, 23 + 1e-9, 5e-4)
K = np.exp(LNK)


def wavenumbers(rng, n=8):
    return [float(10.**rng.uniform(-6, 4)) for _ in range(n)] + [float(pick(rng, [1e-10, .01, .1, 1., 1e3]))]


def transfer(rng, T):
    """EH98 and EH99, with every parameter, re-set on one object."""
    o98, o99 = ps._TransferFunctionEH98(), ps._TransferFunctionEH99()
    for step in range(3):
        h, om, ob, _ = parameters(rng)
        if chance(rng, .5):
            t = float(pick(rng, [2.728, 2.7255, 2.5 + .5 * rng.random(), 1. + 5 * rng.random()]))
            fb = ob / om
            args = (om, fb, h) if t == 2.728 else (om, fb, h, t)
            o98.set_cosmology(*args)
            T.note(model='eh98', args=args)
            for k in wavenumbers(rng) + [0., -.3]:
                g = o98._transfer_function(k)
                w = eh98(k, om, fb, h, t)
                T.close(g, w, 'EH98 (full, baryon, CDM)', rtol=1e-7, atol=1e-12, k=k)
                T.close(o98.transfer_function(k), w[0], 'EH98', rtol=1e-7, atol=1e-12, k=k)
                T.ev('eh98')
        else:
            onu = float(om * pick(rng, [0., .01, .2 * rng.random()]))
            nnu, z = int(pick(rng, [0, 1, 2, 3, 5])), float(pick(rng, [0., 3., 99 * rng.random(), -.5]))
            ol = float(pick(rng, [1 - om, 0., .7]))
            nu = chance(rng, .5)
            o99.set_variant(nu)
            kw = {} if z == 0 else dict(redshift=z)
            if kw:
                o99.set_cosmology(om, ob, onu, nnu, ol, h, z)
            else:
                o99.set_cosmology(om, ob, onu, nnu, ol, h)
            T.note(model='eh99', om=om, ob=ob, onu=onu, nnu=nnu, ol=ol, h=h, z=z, nu=nu)
            for k in wavenumbers(rng):
                w = [float(eh99(k, om, ob, onu, nnu, ol, h, z, f)) for f in (False, True)]
                T.close(o99._transfer_function(k), w, 'EH99 (cb, cbnu)', rtol=1e-7, k=k)
                T.close(o99.transfer_function(k), w[int(nu)], 'EH99 variant', rtol=1e-7, k=k)
                T.ev('eh99')
            T.state('eh99', (nu, nnu, onu > 0, z > 0))
    T.sig(h, om, ob)


def rejected(rng, T):
    """Impossible parameters are refused."""
    o98, o99 = ps._TransferFunctionEH98(), ps._TransferFunctionEH99()
    b98 = dict(om=.3, fb=.15, h=.7, t=2.7)
    b99 = dict(om=.3, ob=.05, onu=.01, n=1, ol=.7, h=.7, z=0.)
    bad = float(pick(rng, [-1e-9, -1., -rng.random()]))
    if chance(rng, .5):
        k = pick(rng, list(b98))
        b98[k] = float(pick(rng, [0., bad]))
        T.note(eh98=b98)
        T.raises(ValueError, lambda: o98.set_cosmology(b98['om'], b98['fb'], b98['h'], b98['t']), 'EH98 accepts ' + k, value=b98[k])
    else:
        k, v = pick(rng, [('ob', bad), ('onu', bad), ('h', bad), ('h', 0.), ('h', 2.0001 + rng.random()), ('z', -1.), ('z', -1 + bad), ('z', 99.1 + rng.random())])
        b99[k] = v
        T.note(eh99=b99)
        T.raises(ValueError, lambda: o99.set_cosmology(b99['om'], b99['ob'], b99['onu'], b99['n'], b99['ol'], b99['h'], b99['z']), 'EH99 accepts ' + k, value=v)
        for v in ((2., 0.), (.7, 99.), (.7, -.999)):
            o99.set_cosmology(.3, .05, .01, 1, .7, v[0], v[1])
    T.ev('refused')
    T.sig(k, b98, b99)


def spectrum(rng, T):
    """Power spectrum object of one cosmology."""
    if chance(rng, .1):
        c, (h, om, ob) = _planck_2015, (.6774, .3089, .0486)
    else:
        h, om, ob, _ = parameters(rng)
        c = _FlatLambdaCDMNR(h, om, ob, float(.85 + .3 * rng.random()), float(.3 + rng.random()))
    ns, s8 = c.n_spec, c.sigma_8
    wb = chance(rng, .5)
    p = ps._PowerSpectrumFlatLambdaCDMNR(c, wb) if wb or chance(rng, .5) else ps._PowerSpectrumFlatLambdaCDMNR(c)
    T.note(h=h, om=om, ob=ob, ns=ns, s8=s8, baryons=wb)
    tf = (lambda k: eh98(k, om, ob / om, h)[0]) if wb else (lambda k: eh99(k, om, ob, 0., 0, 1 - om, h))
    shape = K**(3 + ns) * tf(K)**2
    var = lambda r: float(np.trapezoid(shape * window(K * r)**2, LNK))
    A = s8**2 / var(8.)
    if chance(rng, .3):
        # one transfer function switched back and forth between the variants
        t, nt = ps._TransferFunctionFlatLambdaCDMNR(c, wb), wb
        for _ in range(3):
            k = float(10.**rng.uniform(-4, 1))
            w = eh98(k, om, ob / om, h)[0] if nt else eh99(k, om, ob, 0., 0, 1 - om, h)
            T.close(t.transfer_function(k), float(w), 'transfer function after a change of variant', rtol=1e-7, atol=1e-12, k=k, baryons=nt)
            nt = chance(rng, .5)
            t.set_variant(c, nt)
            T.ev('variant')
    for k in wavenumbers(rng, 5):
        z = float(pick(rng, [0., rng.random() * 10, 30.]))
        D = carroll(om, z)
        T.close(p.transfer_func(k), float(tf(k)), 'transfer', rtol=1e-7, atol=1e-12, k=k)
        d2 = A * k**(3 + ns) * float(tf(k))**2 * D**2
        # on baryon wiggles the transfer function may pass close to zero
        atol = 1e-9 * A * k**(3 + ns) * D**2
        T.close(p.big_delta_sqr(k, z), d2, 'dimensionless power', rtol=2e-6, atol=atol * 1e-3, k=k, z=z)
        T.close(p.power(k, z), d2 * 2 * np.pi**2 / k**3, 'power', rtol=2e-6, atol=atol * 1e-3 * 20 / k**3, k=k, z=z)
        T.close(p.growth_fac(z), D, 'growth', rtol=1e-9, z=z)
        T.close(p.delta_crit(z), 1.686 / D, 'collapse threshold', rtol=1e-9, z=z)
        T.close(p.growth_fac(z), growth_exact(om, z), 'growth against its integral', rtol=.06, z=z)
        x = float(10.**rng.uniform(-7, 6))
        r = float(10.**rng.uniform(-3, 2))
        T.close(p.window_func(x / r, r), float(window(np.float64(x))), 'window', rtol=1e-5, atol=min(1e-9, 1e-6 / x**2), x=x)
        T.ev('spectrum')
    T.close(np.sqrt(p.sigma_sqr(8., 0.)), s8, 'normalisation sigma_8', rtol=1e-6)
    rs = np.sort(10.**rng.uniform(-4, 2, size=4))
    prev = np.inf
    for r in rs:
        r, z = float(r), float(pick(rng, [0., rng.random() * 8]))
        s0, sz = p.sigma_sqr(r, 0.), p.sigma_sqr(r, z)
        w = A * var(r)
        T.close(s0, w, 'variance', rtol=5e-5, r=r)
        T.close(sz, w * carroll(om, z)**2, 'variance at z', rtol=5e-4, r=r, z=z)      # the quadrature of the library has an absolute tolerance
        T.check(s0 < prev, 'variance does not decrease with scale', r=r)
        prev = s0
        m = 4 / 3 * np.pi * r**3 * 27.75366 * om
        T.close(p.sigma_sqr_at_mass(m, z), sz, 'variance at mass', rtol=1e-4, m=m)
        T.ev('variance')
    if chance(rng, .3):
        n = int(pick(rng, [2, 3, 9, 24]))
        lo = float(pick(rng, [rng.uniform(-6, 2), rng.uniform(-13, -9), rng.uniform(4, 8), -10.]))
        hi = min(lo + float(pick(rng, [.5, 1., 3., 8.]) * (.8 + .2 * rng.random())), 9.)
        f = p.interp_lg_sigma_at_lg_mass((lo, hi), n)
        lm = np.linspace(lo, hi, n)
        ls = [.5 * np.log10(A * var((10.**v / (4 / 3 * np.pi * 27.75366 * om))**(1 / 3))) for v in lm]
        for x in list(lm) + list(rng.uniform(lo, hi, size=5)):
            # the quadrature of the code loses its accuracy gradually on spheres larger than a few hundred Mpc/h
            T.close(f.value_at(float(x)), np.interp(x, lm, ls), 'tabulated lg sigma', rtol=0, atol=5e-5 if lm[np.searchsorted(lm, x).clip(0, n - 1)] < 7 else 2e-2, lg_m=x, n=n)
            T.ev('table')
    T.state('baryons', wb)
    T.sig(h, om, ob, wb)


MONITORS = [
    Monitor('c22.transfer', transfer, 1200, 20000, need={'eh98': 1000, 'eh99': 1000}),
    Monitor('c22.rejected', rejected, 150, 1500, need={'refused': 150}),
    Monitor('c22.spectrum', spectrum, 80, 2400, shards=4, need={'spectrum': 300, 'variance': 200, 'table': 50}),
]
