"""C18: binning conserves the data, folding is exact, dates invert."""
import calendar, datetime
from fractions import Fraction
import numpy as np
import radvel
from radvel import utils
from .. import gen, ref

ANCHORS = ["utils.py"]
RULE = ("Time series of 0..80 points, sorted or not, with duplicates, gaps, single points and nights of many exposures, near 0 and at Julian dates, one to four "
        "instruments in any interleaving, errors over four decades, bins from below the resolution of the times to beyond the whole span; phase bins of 1..60; "
        "every basis, planet number, epoch and period; dates over +-4000 years to the microsecond.")
ASSUMPTIONS = ["a bin starts at the earliest time not yet binned and is binsize wide (equal times always share a bin)",
               "phase bins with fewer than three points are not returned (documented by their undefined uncertainty)",
               "dates carry float64 resolution: 47 microseconds at today's Julian dates"]
REQUIRED = ["every-point-in-one-bin", "bin-is-weighted-mean", "weight-conserved", "bin-width", "order-independent", "arguments-unchanged",
            "instruments-kept-apart", "phase-bins-conserve", "phase-is-fold", "phase-range", "phase-periodic", "jd-of-date", "date-of-jd", "dates-invert",
            "returns-normally"]
STEPS = 3000000


def series(rng, n=None):
    n = int(gen.pick(rng, [1, 2, 3, int(rng.integers(1, 12)), int(rng.integers(5, 80))] + ([int(rng.integers(300, 1500))] if rng.random() < .05 else []))) if n is None else n
    base = float(gen.pick(rng, [0., 2455000., -300., 57000.]))
    kind = int(rng.integers(5))
    if kind == 0:
        t = base + rng.uniform(-50, 50, n)
    elif kind == 1:        # nights of several exposures
        t = base + np.floor(rng.uniform(0, max(2, n / 3), n)) + rng.uniform(0, .2, n)
    elif kind == 2:        # duplicates
        t = base + rng.choice(rng.uniform(0, 20, max(1, n // 2)), n)
    elif kind == 3:        # regular, with bin edges hit exactly
        t = base + .25 * rng.permutation(n)
    else:                  # gaps
        t = base + rng.choice([0., 500., 4000.], n) + rng.uniform(0, 2, n)
    if rng.random() < .5:
        t = np.sort(t)
    v = rng.normal(0, 10 ** rng.uniform(-1, 4)) + rng.normal(0, 10 ** rng.uniform(-1, 2), n)
    e = 10 ** rng.uniform(-2, 2, n) if rng.random() < .5 else np.full(n, float(10 ** rng.uniform(-1, 1)))
    return t, v, e


def width(rng, t):
    return float(gen.pick(rng, [0.5, 0.25, 1.0, 10 ** rng.uniform(-3, 2), 1e-9, 1e-12, 1e4, 0.75, 0.0]))


def judge_bins(m, t, v, e, b, out, where):
    """Recover which points went into which bin from the total weights, then judge every bin."""
    T, V, E = [np.asarray(x, float) for x in out]
    m.check(len(T) == len(V) == len(E), "bins-have-all-columns", where=where, got=(len(T), len(V), len(E)))
    o = np.argsort(t, kind='stable')
    ts, w = np.asarray(t, float)[o], 1 / np.asarray(e, float)[o] ** 2
    vs = np.asarray(v, float)[o]
    # the bins in time, from the definition
    groups, j = [], 0
    while j < len(ts):
        k = j
        while k < len(ts) and (ts[k] < ts[j] + b or ts[k] == ts[j]):
            k += 1
        groups.append((j, k)); j = k
    order = np.argsort(T, kind='stable')
    T, V, E = T[order], V[order], E[order]
    if not m.check(len(T) == len(groups), "every-point-in-one-bin", where=where, binsize=b, t=ts, got=len(T), want=len(groups)):
        return
    ws = np.array([w[j:k].sum() for j, k in groups])
    m.close(1 / E ** 2, ws, "bin-error-is-combined-error", rtol=1e-9, where=where, binsize=b)
    m.close((1 / E ** 2).sum(), w.sum(), "weight-conserved", rtol=1e-9, where=where)
    scale = max(1e-300, np.abs(vs).max()) if len(vs) else 1
    m.close(V, [(w[j:k] * vs[j:k]).sum() / x for (j, k), x in zip(groups, ws)], "bin-is-weighted-mean", rtol=1e-9, atol=1e-11 * scale, where=where, binsize=b, t=ts)
    m.close(T, [ts[j] + (w[j:k] * (ts[j:k] - ts[j])).sum() / x for (j, k), x in zip(groups, ws)], "bin-time-is-weighted-mean", rtol=1e-14, atol=1e-9, where=where)
    m.close((V / E ** 2).sum(), (w * vs).sum(), "weighted-velocity-conserved", rtol=1e-9, atol=1e-10 * scale * w.sum(), where=where)
    m.check(all(ts[k - 1] - ts[j] < b or ts[k - 1] == ts[j] for j, k in groups), "bin-width", where=where)
    m.event("bins", len(groups)); m.event("points", len(ts))
    m.state("bins x largest membership", (min(len(groups), 20), max(k - j for j, k in groups)))


def u_timebin(m, rng, i):
    for _ in range(12):
        t, v, e = series(rng)
        b = width(rng, t)
        m.describe(t=t, v=v, e=e, binsize=b)
        c = [x.copy() for x in (t, v, e)]
        out = m.call(utils.timebin, t, v, e, b, _steps=STEPS)
        m.check(all(np.array_equal(x, y) for x, y in zip((t, v, e), c)), "arguments-unchanged", f="timebin")
        judge_bins(m, t, v, e, b, out, "timebin")
        p = rng.permutation(len(t))
        out2 = m.call(utils.timebin, t[p], v[p], e[p], b, _steps=STEPS)
        for a, a2 in zip(out, out2):
            m.close(a2, a, "order-independent", rtol=1e-9, atol=1e-9 * max(1e-300, np.abs(v).max()), f="timebin")
        # shifting all times does not regroup, except by rounding at bin edges
        m.close(np.sum(1 / np.asarray(out[2]) ** 2), np.sum(1 / e ** 2), "weight-conserved", rtol=1e-9)
    out = m.call(utils.timebin, np.array([]), np.array([]), np.array([]), 1., _steps=STEPS)
    m.check(all(len(x) == 0 for x in out), "empty-series", got=out)


NAMES = [['k', 'j', 'apf'], ['hires_j', 'hires', 'j'], ['b', 'a'], ['one'], ['z', 'y', 'x', 'w']]


def u_bintels(m, rng, i):
    for _ in range(8):
        tels = gen.pick(rng, NAMES)
        t, v, e = series(rng)
        tel = rng.choice(tels, len(t)) if rng.random() < .7 else np.sort(rng.choice(tels, len(t)))
        if rng.random() < .3:
            tel = tel.astype(object)
        b = width(rng, t)
        m.describe(t=t, v=v, e=e, tel=list(tel), binsize=b)
        c = [x.copy() for x in (t, v, e, tel)]
        kw = {} if rng.random() < .2 else {'binsize': b}
        b = kw.get('binsize', .5)
        T, V, E, L = m.call(utils.bintels, t, v, e, tel, _steps=STEPS, **kw)
        m.check(all(np.array_equal(x, y) for x, y in zip((t, v, e, tel), c)), "arguments-unchanged", f="bintels")
        if not m.check(len(T) == len(V) == len(E) == len(L), "bins-have-all-columns", got=[len(x) for x in (T, V, E, L)]):
            continue
        T, V, E, L = [np.asarray(x) for x in (T, V, E, L)]
        m.same(sorted(set(L)), sorted(set(tel)), "instruments-kept-apart", what="names")
        for name in set(tel):
            p, q = tel == name, L == name
            judge_bins(m, t[p], v[p], e[p], b, (T[q], V[q], E[q]), "bintels")
            m.check(q.sum() <= p.sum(), "instruments-kept-apart", tel=name)
        p = rng.permutation(len(t))
        T2, V2, E2, L2 = [np.asarray(x) for x in m.call(utils.bintels, t[p], v[p], e[p], tel[p], _steps=STEPS, **kw)]
        for name in set(tel):
            q, q2 = L == name, L2 == name
            for a, a2 in ((T, T2), (V, V2), (E, E2)):
                m.close(np.sort(a2[q2].astype(float)), np.sort(a[q].astype(float)), "order-independent", rtol=1e-9, atol=1e-9 * max(1e-300, np.abs(v).max()), f="bintels")
        m.event("instruments", len(set(tel)))


def u_fastbin(m, rng, i):
    for _ in range(10):
        n = int(rng.integers(1, 200)) if rng.random() > .05 else int(rng.integers(1000, 20000))
        x = gen.pick(rng, [rng.uniform(0, 2, n), rng.uniform(-1, 1, n), 1000 + rng.uniform(0, 2, n), rng.uniform(-300, -2, n), np.round(rng.uniform(0, 2, n), 1)])
        y = gen.pick(rng, [rng.normal(0, 5, n), rng.normal(1e5, 1, n), np.full(n, float(rng.normal(0, 3))), rng.normal(0, 1, n) + 100 * np.sin(x)])
        nb = int(gen.pick(rng, [1, 2, 25, 30, int(rng.integers(1, 60))]))
        kw = {} if nb == 30 else {'nbins': nb}
        m.describe(x=x, y=y, nbins=nb)
        c = x.copy(), y.copy()
        bt, bd, be = m.call(utils.fastbin, x, y, **kw)
        m.check(np.array_equal(x, c[0]) and np.array_equal(y, c[1]), "arguments-unchanged", f="fastbin")
        edges = np.histogram_bin_edges(x, bins=nb)
        k = np.clip(np.searchsorted(edges, x, 'right') - 1, 0, nb - 1)
        full = [j for j in range(nb) if (k == j).sum() >= 3]
        if not m.check(len(bt) == len(bd) == len(be) == len(full), "phase-bins-conserve", got=len(bt), want=len(full), nbins=nb, x=x):
            continue
        m.close(bt, [(edges[j] + edges[j + 1]) / 2 for j in full], "phase-bin-centres", rtol=1e-9, atol=1e-9)
        m.close(bd, [y[k == j].mean() for j in full], "phase-bin-is-mean", rtol=1e-7, atol=1e-8, nbins=nb)
        m.close(be, [y[k == j].std() / np.sqrt((k == j).sum()) for j in full], "phase-bin-error", rtol=1e-6, atol=2e-7 * np.ptp(y) + 1e-9, nbins=nb, y=y)
        p = rng.permutation(n)
        for a, a2 in zip((bt, bd, be), m.call(utils.fastbin, x[p], y[p], **kw)):
            m.close(a2, a, "order-independent", rtol=1e-7, atol=2e-7 * (np.ptp(y) + 1), f="fastbin")
        m.event("phase bins", len(bt))


def u_phase(m, rng, i):
    for _ in range(6):
        s = gen.system(radvel, rng, npl=int(rng.integers(1, 5)), trend='both', gp=None, order='plain')
        n = int(rng.integers(1, 40)) if rng.random() > .05 else int(rng.integers(1000, 20000))
        num = int(rng.integers(1, s.npl + 1))
        base = s.time_base
        t = base + gen.pick(rng, [rng.uniform(-1000, 1000, n), np.sort(rng.uniform(0, 10, n)), np.round(rng.uniform(-100, 100, n))])
        vals = gen.values(s.P)
        per = vals['per%d' % num] if 'per%d' % num in vals else np.exp(vals['logper%d' % num])
        zero = vals['tc%d' % num] if 'tc%d' % num in vals else vals['tp%d' % num]
        t[0] = zero if rng.random() < .5 else t[0]
        m.describe(basis=s.basis, planet=num, per=per, epoch=zero, t=t)
        m.state("basis x planet", (s.basis, num))
        t0, snap = t.copy(), gen.snapshot(s.P)
        want = ((np.asarray(t, ref.LD) - ref.LD(zero)) / ref.LD(per))
        tol = 3e-16 * (np.abs(t - zero) / per + np.abs(t) / per + 1) * 4 + 1e-14
        for cat in (False, True):
            got = m.call(utils.t_to_phase, s.P, t, num, **({'cat': True} if cat else {}))
            if not m.check(np.shape(got) == ((2 if cat else 1) * n,), "one-phase-per-time", cat=cat, got=np.shape(got)):
                continue
            one = got[:n]
            m.check(((one >= 0) & (one <= 1)).all(), "phase-range", got=one)
            d = np.abs(np.asarray(one - want, float)); d = np.abs(d - np.round(d))
            m.check((d <= tol).all(), "phase-is-fold", got=one, want=np.asarray(want % 1, float), basis=s.basis, planet=num)
            if cat:
                m.close(got[n:], one + 1, "doubled-phase", rtol=0, atol=1e-15)
        k = int(rng.integers(-200, 200))
        g1, g2 = m.call(utils.t_to_phase, s.P, t, num), m.call(utils.t_to_phase, s.P, t + k * per, num)
        d = np.abs(g1 - g2); d = np.minimum(d, np.abs(1 - d))
        m.check((d <= 20 * tol + abs(k) * 1e-15 + 4e-16 * (np.abs(t + k * per)) / per * 4).all(), "phase-periodic", k=k, got=g2, want=g1)
        m.check(np.array_equal(t, t0) and gen.snapshot(s.P) == snap, "arguments-unchanged", f="t_to_phase")
        # of a parameter vector: the same fold, about any fixed zero
        vec = s.mod.vector
        v0 = vec.vector.copy()
        g3 = m.call(utils.t_to_phase_vector, vec, t, num)
        m.check(np.array_equal(v0, vec.vector), "arguments-unchanged", f="t_to_phase_vector")
        m.check(np.shape(g3) == (n,) and ((g3 >= 0) & (g3 <= 1)).all(), "phase-range", f="vector")
        dd = (g3 - g3[0]) - np.asarray(want - want[0], float); dd = np.abs(dd - np.round(dd))
        m.check((dd <= 40 * tol + 1e-9 * (np.abs(t - t[0]) / per + 1)).all(), "vector-phase-is-fold", got=g3, basis=s.basis)
        g4 = m.call(utils.t_to_phase_vector, vec, t, num, cat=True)
        m.close(g4, np.concatenate([g3, g3 + 1]), "doubled-phase", rtol=0, atol=1e-15)
        m.event("folds", n)


def jd_exact(d):
    """Julian date of a proleptic Gregorian datetime, exactly (Fliegel and Van Flandern)."""
    a = (14 - d.month) // 12
    y, mo = d.year + 4800 - a, d.month + 12 * a - 3
    jdn = d.day + (153 * mo + 2) // 5 + 365 * y + y // 4 - y // 100 + y // 400 - 32045
    return Fraction(jdn) - Fraction(1, 2) + Fraction(((d.hour * 60 + d.minute) * 60 + d.second) * 10 ** 6 + d.microsecond, 86400 * 10 ** 6)


def u_dates(m, rng, i):
    for _ in range(60):
        lo, hi = ((1900, 2100) if rng.random() < .6 else (2, 9998))
        y = int(rng.integers(lo, hi)); mo = int(rng.integers(1, 13)); day = int(rng.integers(1, calendar.monthrange(y, mo)[1] + 1))
        hms = gen.pick(rng, [(0, 0, 0, 0), (12, 0, 0, 0), (11, 59, 59, 999999), (23, 59, 59, 999999),
                             (int(rng.integers(24)), int(rng.integers(60)), int(rng.integers(60)), int(rng.integers(10 ** 6))),
                             (int(rng.integers(24)), int(rng.integers(60)), int(rng.integers(60)), 0)])
        d = datetime.datetime(y, mo, day, *hms)
        m.describe(date=d.isoformat())
        want = jd_exact(d)
        jd = m.call(utils.date2jd, d)
        res = 2 * float(np.spacing(float(want)))
        m.check(abs(Fraction(float(jd)) - want) <= Fraction(res) + Fraction(1, 10 ** 12), "jd-of-date", date=d.isoformat(), got=float(jd), want=float(want))
        back = m.call(utils.jd2date, float(want))
        err = abs((back - d).total_seconds())
        m.check(err <= 86400 * res + 5e-6, "date-of-jd", jd=float(want), got=back.isoformat(), want=d.isoformat())
        rt = m.call(utils.jd2date, jd)
        m.check(abs((rt - d).total_seconds()) <= 86400 * 2 * res + 5e-6, "dates-invert", date=d.isoformat(), got=rt.isoformat())
        j2 = m.call(utils.date2jd, back)
        m.check(abs(j2 - float(want)) <= 2 * res + 1e-10, "dates-invert", jd=float(want), got=j2)
        m.event("dates")
    for sec in (0.5, 59, 61, 3599, 3601., 86399, 86401, 1e7, float(10 ** rng.uniform(-2, 8))):
        v, unit = m.call(utils.time_print, sec)
        f = {'seconds': 1, 'minutes': 60, 'hours': 3600, 'days': 86400}.get(unit)
        m.check(f is not None and abs(v * f - sec) <= 1e-9 * sec, "duration-in-units", sec=sec, got=(v, unit))


UNITS = [("timebin", u_timebin, 120, 800), ("bintels", u_bintels, 120, 800), ("fastbin", u_fastbin, 100, 500), ("phase", u_phase, 100, 500), ("dates", u_dates, 60, 300)]
