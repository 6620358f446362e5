"""C02: conjunction, eclipse and periastron times against the geometry of the orbit."""
import numpy as np
import pandas as pd
import radvel
from radvel import orbit, kepler
from .. import ref, gen

ANCHORS = ["orbit.py"]
RULE = ("Orbits with 0<=e<1, any omega (including exact quadrants and many turns), periods 0.2..1e4 d, near-zero and JD epochs; "
        "arguments as Python floats, numpy scalars, arrays, Series.")
ASSUMPTIONS = ["at e->1 the half-angle formulas lose digits; tolerances carry the factor sqrt((1+e)/(1-e))"]


def _e(rng):
    return gen.ecc(rng, emax=float(gen.pick(rng, [0.99, 0.999])))


def _tol(orb):
    per, tp, e, w, k = orb
    return per * (2e-13 * np.sqrt((1 + e) / (1 - e)) * (1 + abs(w))) + 4e-16 * abs(tp) + 1e-13 * per


def _mod_close(m, a, b, per, tol, mon, **d):
    d0 = float(np.asarray(a, dtype=ref.LD) - np.asarray(b, dtype=ref.LD)) / per
    d0 -= round(d0)
    return m.check(abs(d0) * per <= tol, mon, got=a, want=float(b), per=per, tol=tol, **d)


def u_geometry(m, rng, i):
    for _ in range(10):
        orb = list(gen.orbit(rng)); orb[2] = _e(rng)
        per, tp, e, w, k = orb
        m.describe(orbit=orb)
        m.state("quadrant x ecc", (int(np.floor(w / (np.pi / 2))), int(e * 10)))
        tol = _tol(orb)
        tc = m.call(orbit.timeperi_to_timetrans, tp, per, e, w)
        _mod_close(m, tc, ref.tc_from_tp(tp, per, e, w), per, tol, "transit-at-inferior-conjunction", orbit=orb)
        ts = m.call(orbit.timeperi_to_timetrans, tp, per, e, w, secondary=True)
        _mod_close(m, ts, ref.ts_from_tp(tp, per, e, w), per, tol, "eclipse-at-superior-conjunction", orbit=orb)
        m.check(tp - tol <= ts <= tp + per + tol, "eclipse-within-one-period-after-periastron", orbit=orb, ts=ts)
        m.check(abs(tc - tp) <= per + tol, "transit-within-one-period-of-periastron", orbit=orb, tc=tc)
        back = m.call(orbit.timetrans_to_timeperi, tc, per, e, w)
        _mod_close(m, back, tp, per, 3 * tol, "round-trip-tp", orbit=orb)
        tcx = tp + float(rng.uniform(-1, 1)) * per
        tpx = m.call(orbit.timetrans_to_timeperi, tcx, per, e, w)
        _mod_close(m, tpx, ref.tp_from_tc(tcx, per, e, w), per, tol, "periastron-from-transit", orbit=orb)
        _mod_close(m, m.call(orbit.timeperi_to_timetrans, tpx, per, e, w), tcx, per, 3 * tol, "round-trip-tc", orbit=orb)
        m.check(abs(tpx - tcx) <= per + tol, "transit-within-one-period-of-periastron", orbit=orb)
        if e < 0.95:
            d = per * 1e-4 * (1 - e) ** 2
            t3 = np.array([tc - d, tc, tc + d])
            v = kepler.rv_drive(t3, np.array(orb)) - k * e * np.cos(w)
            dn = k * 2 * np.pi * np.sqrt((1 + e) / (1 - e) ** 3) * (tol / per + 4e-16 * abs(tc) / per + 1e-12)
            m.check(abs(v[1]) <= 4 * dn + 1e-9 * k, "transit-velocity-is-systemic", orbit=orb, v=v)
            if tol < d / 50 and abs(tc) * 4e-16 < d / 50:
                m.check(v[0] > v[2], "transit-velocity-decreasing", orbit=orb, v=v)
                t3 = np.array([ts - d, ts, ts + d])
                v = kepler.rv_drive(t3, np.array(orb)) - k * e * np.cos(w)
                m.check(v[0] < v[2] and abs(v[1]) <= 4 * dn + 1e-9 * k, "eclipse-velocity", orbit=orb, v=v)
            if e <= 0.99:
                nu = orbit.true_anomaly(np.array([tc, ts]), tp, per, e)
                lim = 2 * np.pi * np.sqrt((1 + e) / (1 - e) ** 3) * (2 * tol / per + 1e-15 * abs(tc) / per + 1e-12) + 1e-9
                m.check(ref.angle_diff(nu[0], np.pi / 2 - w) <= lim and ref.angle_diff(nu[1], 1.5 * np.pi - w) <= lim,
                        "anomaly-at-conjunctions", orbit=orb, nu=nu)
    m.sample(orbit=orb, tc=tc, ts=ts, tp_from_tc=back)


def u_containers(m, rng, i):
    """Scalar, numpy scalar, array and Series arguments give the same element-wise values."""
    n = int(rng.integers(1, 12)) if rng.random() > .03 else int(rng.integers(200, 1200))
    o = np.array([list(gen.orbit(rng)) for _ in range(n)])
    o[:, 2] = [_e(rng) for _ in range(n)]
    per, tp, e, w, k = o.T
    m.describe(orbits=o)
    for sec in (None, False, True):
        f = orbit.timetrans_to_timeperi if sec is None else orbit.timeperi_to_timetrans
        kw = {} if sec is None else {"secondary": sec}
        name = "timetrans_to_timeperi" if sec is None else "timeperi_to_timetrans(secondary=%s)" % sec
        one = np.array([float(m.call(f, float(tp[j]), float(per[j]), float(e[j]), float(w[j]), **kw)) for j in range(n)])
        npo = np.array([float(m.call(f, tp[j], per[j], e[j], w[j], **kw)) for j in range(n)])
        c = [x.copy() for x in (tp, per, e, w)]
        arr = m.call(f, *c, **kw)
        m.check(all(np.array_equal(a, b) for a, b in zip(c, (tp, per, e, w))), "arguments-unchanged", fn=name)
        ser = m.call(f, *[pd.Series(x.copy(), index=np.arange(n) + 3) for x in (tp, per, e, w)], **kw)
        tol = np.array([_tol(x) for x in o])
        m.close(npo, one, "scalar-kinds-agree", rtol=1e-14, atol=tol.max(), fn=name)
        for got, kind in ((arr, "array"), (ser, "Series")):
            g = np.asarray(got, float)
            m.check(g.shape == one.shape and (np.abs(g - one) <= tol).all(), "array-agrees-with-scalars", kind=kind, fn=name,
                    got=g, want=one)
        # a scalar broadcast against arrays
        mix = m.call(f, tp, per[0], e[0], w, **kw)
        ref1 = np.array([float(f(float(tp[j]), float(per[0]), float(e[0]), float(w[j]), **kw)) for j in range(n)])
        t0 = np.array([_tol((per[0], tp[j], e[0], w[j], 1)) for j in range(n)])
        m.check(np.shape(mix) == (n,) and (np.abs(mix - ref1) <= t0).all(), "array-agrees-with-scalars", kind="broadcast", fn=name)
    # unbound orbits among the others leave those as they are
    eu = e.copy(); bad = rng.random(n) < .4; eu[bad] = 1 + rng.random(int(bad.sum())) * rng.choice([0, 1, 10])
    m.state("unbound in array", (bool(bad.any()), bool(bad.all())))
    for kw in (None, {}, {"secondary": True}):
        f = orbit.timetrans_to_timeperi if kw is None else orbit.timeperi_to_timetrans
        with np.errstate(all="ignore"):
            arr = m.call(f, tp, per, eu, w, **(kw or {}))
        want = np.array([float(f(float(tp[j]), float(per[j]), float(e[j]), float(w[j]), **(kw or {}))) for j in range(n)])
        m.check((np.abs(np.asarray(arr) - want) <= tol)[~bad].all(), "array-agrees-with-scalars", kind="unbound in array", e=eu, got=arr, want=want)
    ii = m.call(orbit.timeperi_to_timetrans, 5, 10, 0, 1)
    m.check(abs((float(ii) - float(ref.tc_from_tp(5, 10, 0, 1)))) < 1e-9, "integer-arguments")
    ii = m.call(orbit.timeperi_to_timetrans, 5, 10, 0, 1, secondary=True)
    m.check(abs((float(ii) - float(ref.ts_from_tp(5, 10, 0, 1)))) < 1e-9, "integer-arguments")


def u_unbound(m, rng, i):
    for _ in range(6):
        orb = gen.orbit(rng)
        e = float(gen.pick(rng, [1.0, 1.0 + 10 ** rng.uniform(-9, 3)]))
        m.describe(orbit=orb, e=e)
        for x in (e, np.float64(e)):
            m.check(m.call(orbit.timetrans_to_timeperi, orb[1], orb[0], x, orb[3]) == orb[1], "unbound-untouched", e=e)
            m.check(m.call(orbit.timeperi_to_timetrans, orb[1], orb[0], x, orb[3]) == orb[1], "unbound-untouched", e=e)
            m.check(m.call(orbit.timeperi_to_timetrans, orb[1], orb[0], x, orb[3], secondary=True) == orb[1], "unbound-untouched", e=e)


def u_anomaly(m, rng, i):
    orb = list(gen.orbit(rng))
    per, tp, e, w, k = orb
    t = gen.times(rng, orb)
    m.describe(orbit=orb, t=t)
    nu = m.call(orbit.true_anomaly, t, tp, per, e)
    want, E, ph = ref.true_anomaly(t, tp, per, e)
    el = ref.LD(e)
    tol = (np.sqrt(1 - el * el) / (1 - el * np.cos(E)) ** 2 * (6 * ref.TWOPI * ref.LD(2.3e-16) * (np.abs(ph) + 1) + ref.LD(3e-12))
           ).astype(float) + 1e-11
    m.check(np.shape(nu) == t.shape and (ref.angle_diff(nu, want) <= tol).all(), "true-anomaly", orbit=orb, got=nu, want=want.astype(float))
    # periodicity
    nu2 = m.call(orbit.true_anomaly, t + per * 4, tp + per * 4, per, e)
    m.check((ref.angle_diff(nu2, nu) <= 3 * tol + 1e-15 * abs(tp) * 1e3 / (per * (1 - e) ** 2)).all(), "anomaly-periodic", orbit=orb)


UNITS = [("geometry", u_geometry, 3000, 10000), ("containers", u_containers, 1200, 3000), ("unbound", u_unbound, 300, 600),
         ("anomaly", u_anomaly, 1200, 3000)]
REQUIRED = ["transit-at-inferior-conjunction", "eclipse-at-superior-conjunction", "array-agrees-with-scalars", "round-trip-tp",
            "unbound-untouched", "true-anomaly", "transit-velocity-decreasing"]
