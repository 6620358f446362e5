"""C19: masses, semi-amplitudes, semi-major axes and densities vs two-body mechanics in extended precision."""
import numpy as np
import pandas as pd
from radvel import utils
from .. import gen

ANCHORS = ["utils.py"]
RULE = ("Masses from 1e-4 Earth masses to several stellar masses, stars of 0.05..100 Msun, periods 0.05..1e6 d, 0 <= e < 1 (also within 1e-12 of 1), "
        "all unit spellings, scalars, integers, lists, Series, 0-d, n-d and mixed broadcastable arguments.")
ASSUMPTIONS = ["K_0 = 28.4329 m/s is documented and 1.5e-5 above the value of today's constants: tolerance 6e-5",
               "below a mass ratio of 0.1, Msini documents the approximation Mp << Mstar: any value between it and the exact solution is accepted"]
REQUIRED = ["semi-amplitude-is-two-body", "msini-is-two-body", "msini-inverts-semi-amplitude", "elementwise", "semi-major-axis-is-kepler3", "density",
            "arguments-unchanged", "unknown-unit-refused", "broadcast-shape"]
LD = np.longdouble
G, GMSUN, GMJUP, GMEARTH = LD('6.6743e-11'), LD('1.3271244e20'), LD('1.2668653e17'), LD('3.986004e14')
AU, RE, RJ, DAY, YEAR = LD('1.495978707e11'), LD('6.3781e6'), LD('7.1492e7'), LD(86400), LD('365.25') * 86400
PI = np.arctan2(LD(0), LD(-1))
TOL = 6e-5


def K_exact(gm, P, gmtot, e):
    """GM of the planet (times sin i), period [d], GM of both, eccentricity."""
    return (2 * PI / (LD(P) * DAY)) ** (LD(1) / 3) * gm / gmtot ** (LD(2) / 3) / np.sqrt(1 - LD(e) ** 2)


def msini_bounds(K, P, Mstar, e):
    """(approximation for small masses, exact solution) as GM."""
    gms = LD(Mstar) * GMSUN
    al = LD(K) * np.sqrt(1 - LD(e) ** 2) * (LD(P) * DAY / (2 * PI)) ** (LD(1) / 3) * gms ** (-LD(1) / 3)   # y = al (1+y)^(2/3)
    lo, hi = al, max(4 * al ** 3, LD(2) ** (LD(2) / 3) * al) * LD('1.001')
    for _ in range(140):
        mid = (lo + hi) / 2
        lo, hi = (mid, hi) if mid < al * (1 + mid) ** (LD(2) / 3) else (lo, mid)
    return al * gms, (lo + hi) / 2 * gms


def draw(rng, heavy=None):
    P = float(10 ** rng.uniform(-1.3, 6))
    M = float(10 ** rng.uniform(-1.3, 2))
    e = float(gen.pick(rng, [0.0, rng.uniform(0, .99), rng.uniform(0, .99), 1 - 10 ** rng.uniform(-12, -1), 10 ** rng.uniform(-12, -1)]))
    r = 10 ** (rng.uniform(-10, -1.2) if heavy is False else rng.uniform(-1.2, 1.2) if heavy else gen.pick(rng, [rng.uniform(-10, -2), rng.uniform(-2, 1)]))
    gm = LD(r) * LD(M) * GMSUN
    return float(gm / GMJUP), P, M, e


MASS = {'jupiter': GMJUP, 'earth': GMEARTH}
SPELL = {'jupiter': ['jupiter', 'Jupiter', 'JUPITER'], 'earth': ['earth', 'Earth', 'EARTH']}


def u_scalar(m, rng, i):
    for _ in range(40):
        mj, P, M, e = draw(rng)
        unit = gen.pick(rng, ['jupiter', 'earth'])
        sp = gen.pick(rng, SPELL[unit])
        m.describe(mj=mj, P=P, M=M, e=e, unit=sp)
        gm = LD(mj) * GMJUP
        mass = float(gm / MASS[unit])
        Mtot = M + float(gm / GMSUN)
        for mt in (M, Mtot):
            K = m.call(utils.semi_amplitude, mass, P, mt, e, Msini_units=sp)
            m.close(K, float(K_exact(gm, P, LD(mt) * GMSUN, e)), "semi-amplitude-is-two-body", rtol=TOL, args=(mass, P, mt, e, sp))
        m.state("mass ratio decade x ecc", (int(np.floor(np.log10(mj * 9.5e-4 / M))), int(min(12, -np.log10(1 - e)))))
        K = float(K_exact(gm, P, LD(Mtot) * GMSUN, e))
        got = m.call(utils.Msini, K, P, M, e, Msini_units=sp)
        lo, hi = [float(x / MASS[unit]) for x in msini_bounds(K, P, M, e)]
        ratio = lo * float(MASS[unit] / GMSUN) / M
        g = float(np.ravel(got)[0]) if np.size(got) == 1 else np.nan
        m.check(np.shape(got) == (), "scalar-in-scalar-out", shape=np.shape(got), args=(K, P, M, e))
        if ratio > 0.1 * (1 + 1e-3):
            m.close(g, hi, "msini-is-two-body", rtol=TOL, args=(K, P, M, e, sp), ratio=ratio)
            m.close(g, mass, "msini-inverts-semi-amplitude", rtol=2 * TOL, args=(K, P, M, e, sp))
            back = m.call(utils.semi_amplitude, g, P, M + g * float(MASS[unit] / GMSUN), e, Msini_units=unit)
            m.close(back, K, "semi-amplitude-inverts-msini", rtol=2 * TOL, args=(K, P, M, e))
            m.event("heavy companions")
        else:
            m.check(lo * (1 - TOL) <= g <= hi * (1 + TOL), "msini-is-two-body", got=g, approx=lo, exact=hi, args=(K, P, M, e, sp))
            b1 = float(m.call(utils.semi_amplitude, g, P, M, e, Msini_units=unit))
            b2 = float(m.call(utils.semi_amplitude, g, P, M + g * float(MASS[unit] / GMSUN), e, Msini_units=unit))
            m.check(min(abs(b1 / K - 1), abs(b2 / K - 1)) < 2 * TOL, "msini-inverts-semi-amplitude", got=(b1, b2), K=K, args=(K, P, M, e, sp))
            m.event("light companions")
        # defaults: semi_amplitude takes Jupiter masses, Msini gives Earth masses
        m.close(m.call(utils.semi_amplitude, mj, P, M, e), float(K_exact(gm, P, LD(M) * GMSUN, e)), "default-unit-semi-amplitude", rtol=TOL)
        m.close(m.call(utils.Msini, K, P, M, e), float(g * MASS[unit] / GMEARTH), "default-unit-msini", rtol=1e-6)
        a = m.call(utils.semi_major_axis, P, Mtot)
        want = (LD(Mtot) * GMSUN * (LD(P) * DAY) ** 2 / (4 * PI ** 2)) ** (LD(1) / 3) / AU
        m.close(a, float(want), "semi-major-axis-is-kepler3", rtol=1e-6, args=(P, Mtot))
        mass, rad = float(10 ** rng.uniform(-2, 4)), float(10 ** rng.uniform(-1, 2))
        for un, gmu, ru in (('earth', GMEARTH, RE), ('jupiter', GMJUP, RJ)):
            want = LD(mass) * gmu / G / (LD(4) / 3 * PI * (LD(rad) * ru) ** 3) * LD('1e-3')
            m.close(m.call(utils.density, mass, rad, MR_units=gen.pick(rng, SPELL[un])), float(want), "density", rtol=1e-6, args=(mass, rad, un))
        m.close(m.call(utils.density, mass, rad), float(LD(mass) * GMEARTH / G / (LD(4) / 3 * PI * (LD(rad) * RE) ** 3) * LD('1e-3')),
                "density", rtol=1e-6, args=(mass, rad, "default"))
    for bad in ('sun', 'solar', '', 'jup', 'earths'):
        m.raises(utils.Msini, 5., 10., 1., 0., Msini_units=bad, _mon="unknown-unit-refused", _detail={"unit": bad, "f": "Msini"})
        m.raises(utils.semi_amplitude, 5., 10., 1., 0., Msini_units=bad, _mon="unknown-unit-refused", _detail={"unit": bad})
        m.raises(utils.density, 5., 10., MR_units=bad, _mon="unknown-unit-refused", _detail={"unit": bad})


def frozen(x):
    return x.to_numpy().copy() if isinstance(x, pd.Series) else np.array(x, copy=True)


def u_arrays(m, rng, i):
    """Element by element, in every container, light and heavy elements mixed."""
    for _ in range(6):
        n = int(rng.integers(1, 12)) if rng.random() > .03 else int(rng.integers(200, 1200))
        rows = [draw(rng, heavy=gen.pick(rng, [None, True, False])) for _ in range(n)]
        if rng.random() < .5:      # realistic neighbours
            rows = [(float(10 ** rng.uniform(-2, 3)), float(10 ** rng.uniform(0, 4)), float(rng.uniform(.5, 2)), float(rng.uniform(0, .9))) for _ in range(n)]
        mj, P, M, e = [np.array(c) for c in zip(*rows)]
        K = np.array([float(K_exact(LD(a) * GMJUP, b, LD(c) * GMSUN, d)) for a, b, c, d in rows])
        cont = gen.pick(rng, ['array', 'list', 'series', 'strided', '2d', 'int'])
        wrap = {'array': np.array, 'list': list, 'series': lambda x: pd.Series(x, index=np.arange(len(x))[::-1] + 3),
                'strided': lambda x: np.repeat(x, 2)[::2], '2d': lambda x: np.array(x)[:, None] * np.ones((1, 2)), 'int': lambda x: x}[cont]
        cols = [mj, P, M, e, K]
        if cont == 'int':
            mj, P, M, K = [np.maximum(1, np.round(x)).astype(int) for x in (mj, P, M, K)]
            e = np.zeros(n, int)
        one = gen.pick(rng, [None, None, 'P', 'M', 'e', 'K', 'PM'])    # arguments given as one scalar for all
        vals = {'mj': mj, 'P': P, 'M': M, 'e': e, 'K': K}
        args = {}
        for k2, v in vals.items():
            if one and k2 in one:
                vals[k2] = np.array([v[0]] * n)
                args[k2] = v[0].item()
            else:
                args[k2] = wrap(v)
        m.describe(container=cont, scalar=one, **{k2: v for k2, v in vals.items()})
        m.state("container x scalar argument", (cont, one))
        before = {k2: frozen(v) for k2, v in args.items()}
        unit = gen.pick(rng, ['jupiter', 'earth'])
        for name, f, names in (("semi_amplitude", lambda mj, P, M, e: utils.semi_amplitude(mj, P, M, e, Msini_units=unit), ('mj', 'P', 'M', 'e')),
                               ("Msini", lambda K, P, M, e: utils.Msini(K, P, M, e, Msini_units=unit), ('K', 'P', 'M', 'e')),
                               ("semi_major_axis", utils.semi_major_axis, ('P', 'M')),
                               ("density", lambda mj, M: utils.density(mj, M, MR_units=unit), ('mj', 'M'))):
            got = m.call(f, *[args[k2] for k2 in names])
            if all(np.ndim(args[k2]) == 0 for k2 in names):
                continue
            shape = np.broadcast_shapes(*[np.shape(args[k2]) for k2 in names])
            want = np.array([float(np.ravel(f(*[vals[k2][j].item() for k2 in names]))[0]) for j in range(n)])
            if cont == '2d':
                want = want[:, None] * np.ones((1, 2))
            if m.check(np.shape(got) == shape, "broadcast-shape", f=name, got=np.shape(got), want=shape, container=cont, scalar=one):
                m.close(np.asarray(got, float), want, "elementwise", rtol=1e-6, f=name, container=cont, scalar=one)
            m.check(all(np.array_equal(frozen(args[k2]), before[k2]) for k2 in args), "arguments-unchanged", f=name)
            m.event("array elements", int(np.prod(shape)))


def u_scaling(m, rng, i):
    """Scaling laws across one call, independent of the constants."""
    mj, P, M, e = draw(rng, heavy=False)
    m.describe(mj=mj, P=P, M=M, e=e)
    f = float(10 ** rng.uniform(-1, 1))
    K = float(utils.semi_amplitude(mj, P, M, e))
    m.close(utils.semi_amplitude(mj * f, P, M, e), K * f, "K-linear-in-mass", rtol=1e-9)
    m.close(utils.semi_amplitude(mj, P * f ** 3, M, e), K / f, "K-scales-with-period", rtol=1e-9)
    m.close(utils.semi_amplitude(mj, P, M * f ** 3, e), K / f ** 2, "K-scales-with-star", rtol=1e-9)
    m.close(utils.semi_amplitude(mj, P, M, 0) / np.sqrt((1 - e) * (1 + e)), K, "K-scales-with-ecc", rtol=1e-6)
    a = utils.semi_major_axis(P, M)
    m.close(utils.semi_major_axis(P * f ** 3, M), a * f ** 2, "a-scales-with-period", rtol=1e-9)
    m.close(utils.semi_major_axis(P, M * f ** 3), a * f, "a-scales-with-mass", rtol=1e-9)
    m.close(utils.semi_amplitude(utils.Msini(K, P, M, e, 'earth'), P, M, e, 'earth'), utils.semi_amplitude(utils.Msini(K, P, M, e, 'jupiter'), P, M, e, 'jupiter'),
            "units-consistent", rtol=1e-9)
    # a larger velocity is a larger mass, with no jump down, across the change of formula
    Ks = np.sort(10 ** rng.uniform(0, 6, 30))
    ms = np.array([float(utils.Msini(k, P, M, min(e, .9))) for k in Ks])
    m.check((np.diff(ms) > 0).all() and (ms > 0).all(), "mass-monotonic-in-K", K=Ks, got=ms)


UNITS = [("scalar", u_scalar, 180, 600), ("arrays", u_arrays, 180, 800), ("scaling", u_scaling, 120, 400)]
