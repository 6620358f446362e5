"""C01: Keplerian velocities vs an extended-precision bisection oracle; both solvers; termination."""
import numpy as np
import radvel
from radvel import kepler, orbit
from .. import ref, gen

ANCHORS = ["kepler.py", "orbit.py"]
RULE = ("Orbits with e from {0, 1e-12..1e-3, bulk, up to 0.99}, any omega, periods 0.2..1e4 d, epochs near 0 or JD; times within, "
        "at special phases of, and many periods away from periastron; float64/float32/int dtypes, lists of any length and order.")
ASSUMPTIONS = ["tolerance = propagated float64 rounding of the mean anomaly and the documented 1e-12 solver tolerance",
               "termination of the Python solver is decided by a budget of 2e7 executed source lines per call"]
STEPS = 20000000


def _rv(m, t, orb, c):
    return m.call(kepler.rv_drive, t, np.array(orb), use_c_kepler_solver=c, _steps=STEPS)


def u_velocity(m, rng, i):
    for _ in range(12):
        orb = gen.orbit(rng)
        t = gen.times(rng, orb)
        m.describe(orbit=orb, t=t)
        want, tol = ref.rv(t, *orb)
        m.state("ecc-decade x branch", (int(-np.log10(orb[2] + 1e-13)), int(np.floor(orb[3] / (np.pi / 2)))))
        for c in (True, False):
            t0 = t.copy()
            o = np.array(orb)
            got = m.call(kepler.rv_drive, t, o, use_c_kepler_solver=c, _steps=STEPS)
            m.same(t, t0, "times-unchanged")
            m.same(o, np.array(orb), "elements-unchanged")
            if m.check(np.shape(got) == t.shape, "one-velocity-per-time", got=np.shape(got), want=t.shape):
                bad = np.abs(got - want) > tol
                m.check(not bad.any() and np.isfinite(got).all(), "velocity-is-keplerian", solver="C" if c else "Python", orbit=orb,
                        t=t[bad], got=got[bad], want=want[bad], tol=tol[bad])
        default = m.call(kepler.rv_drive, t, np.array(orb))
        m.check(np.shape(default) == t.shape and (np.abs(default - want) <= tol).all(), "default-solver-is-keplerian", orbit=orb)
        m.event("velocities", 3 * t.size)
    m.sample(orbit=orb, t=t, want=want)


def u_elementwise(m, rng, i):
    """Order, length and dtype of the times do not matter."""
    orb = gen.orbit(rng)
    t = gen.times(rng, orb, n=int(rng.integers(2, 30)))
    m.describe(orbit=orb, t=t)
    perm = rng.permutation(t.size)
    for c in (True, False):
        a = _rv(m, t, orb, c)
        m.close(_rv(m, t[perm], orb, c), a[perm], "order-independent", rtol=1e-13, atol=1e-13 * orb[4], orbit=orb)
        j = int(rng.integers(t.size))
        m.close(_rv(m, t[j:j + 1], orb, c), a[j:j + 1], "length-independent", rtol=1e-13, atol=1e-13 * orb[4], orbit=orb)
        big = np.empty(2 * t.size); big[::2] = t; big[1::2] = np.nan
        m.close(_rv(m, big[::2], orb, c), a, "stride-independent", rtol=1e-13, atol=1e-13 * orb[4])
        m.close(_rv(m, t[::-1], orb, c), a[::-1], "stride-independent", rtol=1e-13, atol=1e-13 * orb[4])
        ti = np.round(t)
        want, tol = ref.rv(ti, *orb)
        for tt in (ti.astype(np.int64), list(ti), tuple(ti)):
            got = _rv(m, tt, orb, c)
            m.check(np.shape(got) == ti.shape and (np.abs(got - want) <= tol).all(), "dtype-independent", dtype=str(type(tt)), orbit=orb)
        tf = (t - orb[1]).astype(np.float32)
        orb0 = (orb[0], 0.0) + tuple(orb[2:])
        want, tol = ref.rv(tf.astype(float), *orb0)
        got = _rv(m, tf, orb0, c)
        m.check((np.abs(np.asarray(got, float) - want) <= tol).all(), "dtype-independent", dtype="float32", orbit=orb0)
        m.check(len(_rv(m, np.array([]), orb, c)) == 0, "empty-times", orbit=orb)
        import pandas as pd
        got = _rv(m, pd.Series(t, index=np.arange(t.size) + 7), orb, c)
        m.close(np.asarray(got), a, "dtype-independent", rtol=1e-13, atol=1e-13 * orb[4], dtype="Series")
    # integer and other sequences as elements
    lst = [int(max(1, round(orb[0]))), int(orb[1]), orb[2], orb[3], 3]
    want, tol = ref.rv(t, *lst)
    for c in (True, False):
        got = m.call(kepler.rv_drive, t, lst, use_c_kepler_solver=c, _steps=STEPS)
        m.check((np.abs(got - want) <= tol).all(), "velocity-is-keplerian", orbit=lst)


def u_clamp(m, rng, i):
    orb = list(gen.orbit(rng))
    t = gen.times(rng, orb)
    hi = float(rng.choice([0.99 + 10 ** rng.uniform(-12, -2), 1.0, 1.0 + 10 ** rng.uniform(-6, 1), 0.9999]))
    lo = -float(10 ** rng.uniform(-10, 1))
    m.describe(orbit=orb, t=t, hi=hi, lo=lo)
    for bad, lim in ((hi, 0.99), (lo, 0.0)):
        o = list(orb); o[2] = lim
        want, tol = ref.rv(t, *o)
        o[2] = bad
        for c in (True, False):
            got = _rv(m, t, o, c)
            m.check(np.isfinite(got).all() and (np.abs(got - want) <= tol).all(), "eccentricity-clamped", e=bad, solver=c, orbit=orb)
    o = list(orb); o[0] = -orb[0]
    o[1] = 0.0
    tt = rng.uniform(0, 3, 9)
    for c in (True, False):
        for e in (0.0, 0.3, 1.5, -1.0):
            o[2] = e
            got = _rv(m, tt, o, c)
            m.check(np.isfinite(got).all() and (np.abs(got) <= 2.0001 * orb[4]).all(), "negative-period-finite", orbit=o, got=got)
        for e in (0.3, 0.95):
            o[2] = e
            want, tol = ref.rv(tt, 1e-4, 0.0, e, o[3], o[4])
            m.check((np.abs(_rv(m, tt, o, c) - want) <= tol).all(), "negative-period-clamped", orbit=o)


def u_root(m, rng, i):
    """Kepler's equation: E - e sin E = M for every M, including far outside [0, 2 pi)."""
    from radvel import _kepler
    n = int(rng.integers(1, 400))
    scale = float(10 ** rng.uniform(-12, 9))
    M = rng.uniform(-scale, scale, n) if i % 2 else rng.uniform(0, 2 * np.pi, n)
    if i % 5 == 0:
        M = rng.choice([0, np.pi, 2 * np.pi, -np.pi, np.nextafter(np.pi, 4), 1e-300, 1e-17, 2 * np.pi - 1e-15], n)
    e = np.array([gen.ecc(rng, 0.99) for _ in range(n)])
    if i % 3 == 0:      # nearly parabolic
        e = 1 - 10 ** rng.uniform(-9, -2, n)
        if i % 2:
            M = np.concatenate([M[:n // 2], rng.choice([-1, 1], n - n // 2) * 10 ** rng.uniform(-9, 0, n - n // 2)])
    m.describe(scale=scale, n=n, M=M, e=e)
    M0, e0 = M.copy(), e.copy()
    E = m.call(kepler.kepler, M, e, _steps=STEPS)
    m.check(np.array_equal(M, M0) and np.array_equal(e, e0), "solver-arguments-unchanged")
    if not m.check(np.shape(E) == M.shape, "one-anomaly-per-time", got=np.shape(E), want=M.shape):
        return
    r = np.abs(E - e * np.sin(E) - M)
    tol = 2e-12 + 8 * 2.3e-16 * np.abs(M)
    m.check((r <= tol).all(), "kepler-equation-root", worst=float(np.nanmax(r)), M=M[~(r <= tol)], e=e[~(r <= tol)])
    Ec = m.call(_kepler.kepler_array, M.copy(), float(e[0]))
    r = np.abs(Ec - e[0] * np.sin(Ec) - M)
    m.check((r <= tol).all(), "kepler-equation-root-C", M=M[~(r <= tol)], e=e[0], got=Ec[~(r <= tol)])
    inside = (M >= 0) & (M <= 2 * np.pi)
    if inside.any():
        want = ref.ecc_anomaly(M[inside], e[inside]).astype(float)
        m.check((np.abs(E[inside] - want) <= 2e-11 / (1 - e[inside])).all(), "anomaly-matches-oracle")
    m.event("roots", n)


def u_anomaly(m, rng, i):
    orb = gen.orbit(rng, zero=True)
    t = gen.times(rng, orb)
    m.describe(orbit=orb, t=t)
    nu = m.call(orbit.true_anomaly, t, orb[1], orb[0], orb[2], _steps=STEPS)
    want, E, ph = ref.true_anomaly(t, orb[1], orb[0], orb[2])
    e = ref.LD(orb[2])
    dn = np.sqrt(1 - e * e) / (1 - e * np.cos(E)) ** 2
    tol = (dn * (6 * ref.TWOPI * ref.LD(2.3e-16) * (np.abs(ph) + 1) + ref.LD(3e-12)) + ref.LD(1e-9) * (ref.LD(1e-3))).astype(float)
    m.check(np.shape(nu) == t.shape and (ref.angle_diff(nu, want) <= tol + 1e-11).all(), "true-anomaly", orbit=orb, t=t, got=nu,
            want=want.astype(float))


def u_grid(m, rng, i):
    """A dense sweep of (M, e), both solvers, one omega per case."""
    e = np.linspace(0, 0.99, 34)[i % 34] if i < 68 else float(rng.uniform(0.9, 0.99))
    n = 4000 if m.quick else 40000
    M = np.linspace(0, 1, n, endpoint=False)
    if i % 2:
        M = np.concatenate([10 ** np.linspace(-15, -1, n // 2), 1 - 10 ** np.linspace(-15, -1, n // 2)])
    w = gen.omega(rng)
    m.describe(e=float(e), w=w, n=n, i=i)
    orb = (1.0, 0.0, float(e), w, 1.0)
    want, tol = ref.rv(M, *orb)
    for c in (True, False):
        got = m.call(kepler.rv_drive, M, np.array(orb), use_c_kepler_solver=c, _steps=STEPS)
        bad = ~(np.abs(got - want) <= tol)
        m.check(not bad.any(), "velocity-is-keplerian", e=e, w=w, M=M[bad], got=got[bad], want=want[bad], tol=tol[bad])
    m.event("velocities", 2 * M.size)


UNITS = [("velocity", u_velocity, 900, 6000), ("elementwise", u_elementwise, 180, 800), ("clamp", u_clamp, 180, 600),
         ("root", u_root, 360, 2000), ("anomaly", u_anomaly, 360, 2000), ("grid", u_grid, 68, 200)]
REQUIRED = ["velocity-is-keplerian", "kepler-equation-root", "eccentricity-clamped", "true-anomaly", "dtype-independent"]
