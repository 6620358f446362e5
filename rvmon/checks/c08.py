"""C08: every prior against an independent statement of its density, on real parameter objects in every basis."""
import warnings
import numpy as np
import radvel
from radvel import prior as rp
from scipy import integrate
from .. import ref, gen

ANCHORS = ["prior.py"]
RULE = ("All ten prior classes on parameters in every position (orbital of planet 1-11, trend, instrument, GP), every basis, values inside, far "
        "outside and near (not on) the edges of the support, integer and numpy arguments, planet lists in any order; normalisation by quadrature "
        "for the proper ones; finite mode for the extra constraints.")
ASSUMPTIONS = ["values exactly on an edge of a support are not asserted (a null set)"]
ONE = ['Gaussian', 'HardBounds', 'Jeffreys', 'ModifiedJeffreys', 'NumericalPrior', 'UserDefinedPrior', 'InformativeBaselinePrior']


def setup(rng, npl=None, basis=None):
    basis = basis or gen.pick(rng, ref.BASES)
    npl = int(gen.pick(rng, [1, 2, 3, 11])) if npl is None else npl
    orbits = [gen.gentle_orbit(rng, float(gen.pick(rng, [0., 2455000.])), .85) for _ in range(npl)]
    P = radvel.Parameters(npl, basis=basis)
    for n, o in enumerate(orbits, 1):
        for k, v in ref.to_basis(o, basis).items():
            P['%s%d' % (k, n)] = radvel.Parameter(value=v, vary=bool(rng.integers(2)))
    ex = ['gamma_j', 'jit_j', 'gamma_k', 'jit_k', 'gp_amp', 'gp_per', 'dvdt', 'curv', 'my_param']
    for j in rng.permutation(len(ex)):
        if rng.random() < .8:
            P[ex[j]] = radvel.Parameter(value=float(rng.uniform(.5, 5)), vary=bool(rng.integers(2)))
    return basis, npl, orbits, P, radvel.Vector(P)


def put(V, name, x, viadict=False):
    if viadict:
        V.params[name].value = x
        V.dict_to_vector()
    else:
        V.vector[V.indices[name]][0] = x


def guarded(m, pr, P, V, **k):
    snap, v0 = gen.snapshot(P), V.vector.copy()
    state = {a: repr(b) for a, b in vars(pr).items()}
    with warnings.catch_warnings(), np.errstate(all='ignore'):
        warnings.simplefilter('ignore')
        r = float(m.call(pr, P, V, **k))
        r2 = float(m.call(pr, P, V, **k))
    m.check(r == r2 or (np.isnan(r) and np.isnan(r2)), "repeatable", prior=repr(pr), got=(r, r2))
    m.same(gen.snapshot(P), snap, "changes-no-parameter")
    m.check(np.array_equal(V.vector, v0), "changes-no-parameter", what="vector")
    m.same({a: repr(b) for a, b in vars(pr).items()}, state, "changes-not-itself")
    return r


def num(rng, x):
    """The same number in another numeric type."""
    return gen.pick(rng, [x, np.float64(x), x])


def make_one(rng, kind, name):
    """prior, log-density function, support (lo, hi), interior sampler, proper?"""
    if kind == 'Gaussian':
        mu, sd = float(rng.normal(0, 100)), float(10 ** rng.uniform(-3, 3))
        return rp.Gaussian(name, num(rng, mu), num(rng, sd)), lambda x: -.5 * ((x - mu) / sd) ** 2 - np.log(sd) - .5 * np.log(2 * np.pi), \
            (-np.inf, np.inf), (mu - 12 * sd, mu + 12 * sd), True
    if kind == 'HardBounds':
        lo = float(rng.normal(0, 50))
        hi = lo + float(10 ** rng.uniform(-3, 3))
        if rng.random() < .3:
            lo, hi = int(np.floor(lo)), int(np.ceil(hi)) + 1
        if rng.random() < .25:
            a, b = gen.pick(rng, [(-np.inf, hi), (lo, np.inf), (-np.inf, np.inf)])
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                return rp.HardBounds(name, a, b), lambda x: 0. if a < x < b else -np.inf, (a, b), (max(a, -1e3), min(b, 1e3)), False
        return rp.HardBounds(name, num(rng, lo), num(rng, hi)), lambda x: -np.log(hi - lo) if lo < x < hi else -np.inf, (lo, hi), (lo, hi), True
    if kind == 'Jeffreys':
        lo = float(10 ** gen.pick(rng, [rng.uniform(-3, 2), rng.uniform(-9, 4)]))
        hi = lo * float(10 ** rng.uniform(.01, 4))
        if rng.random() < .3:
            lo, hi = int(np.ceil(lo)), int(np.ceil(lo)) + int(np.ceil(hi))
        return rp.Jeffreys(name, lo, hi), lambda x: -np.log(x) - np.log(np.log(hi) - np.log(lo)) if lo <= x <= hi else -np.inf, (lo, hi), (lo, hi), True
    if kind == 'ModifiedJeffreys':
        knee = float(rng.normal(0, 10 ** gen.pick(rng, [1., rng.uniform(-3, 3)])))
        lo = knee + float(10 ** rng.uniform(-3, 3))
        hi = knee + (lo - knee) * float(10 ** rng.uniform(.01, 4))
        if rng.random() < .3:
            knee, lo, hi = -1, 0, int(gen.pick(rng, [5, 1000]))
        return rp.ModifiedJeffreys(name, lo, hi, knee), lambda x: -np.log(x - knee) - np.log(np.log(hi - knee) - np.log(lo - knee)) if lo <= x <= hi \
            else -np.inf, (lo, hi), (lo, hi), True
    if kind == 'NumericalPrior':
        vals = rng.normal(rng.normal(0, 5), 10 ** rng.uniform(-1, 1), int(rng.integers(20, 200)))
        bw = gen.pick(rng, [None, None, .3])
        f = len(vals) ** -.2 if bw is None else bw
        s = vals.std(ddof=1) * f

        def lp(x):
            return float(np.logaddexp.reduce(-.5 * ((x - vals) / s) ** 2) - np.log(len(vals) * s * np.sqrt(2 * np.pi)))
        return rp.NumericalPrior([name], vals.copy(), bw_method=bw), lp, (-np.inf, np.inf), (vals.min() - 4 * s, vals.max() + 4 * s), True
    if kind == 'UserDefinedPrior':
        c = float(rng.normal())
        return rp.UserDefinedPrior([name], lambda p: -abs(p[0] - c) - np.log(2), 'tex'), lambda x: -abs(x - c) - np.log(2), (-np.inf, np.inf), \
            (c - 30, c + 30), True
    if kind == 'InformativeBaselinePrior':
        B, td = float(10 ** rng.uniform(0, 3)), float(gen.pick(rng, [0., .3, 5.]))
        pr = rp.InformativeBaselinePrior(name, B, duration=td) if rng.random() < .7 or td else rp.InformativeBaselinePrior(name, B)

        def lp(x):
            per = np.exp(x) if name.startswith('logper') else x
            return 0. if per - td <= B else float(np.log((B + td) / per))
        return pr, lp, (-np.inf, np.inf), ((np.log(.1), np.log(50 * B)) if name.startswith('logper') else (.1, 50 * B)), False


def u_one(m, rng, i):
    kind = ONE[i % len(ONE)]
    basis, npl, orbits, P, V = setup(rng)
    if kind == 'InformativeBaselinePrior':
        n = int(rng.integers(1, npl + 1))
        name = ('logper%d' if 'logper' in basis.split() else 'per%d') % n
    else:
        name = gen.pick(rng, sorted(P))
    pr, lp, sup, box, proper = make_one(rng, kind, name)
    m.describe(kind=kind, param=name, basis=basis, npl=npl, prior={k: v for k, v in vars(pr).items() if isinstance(v, (int, float))})
    m.state("prior x parameter", (kind, name.rstrip('0123456789')))
    xs = list(rng.uniform(box[0], box[1], 5))
    w = box[1] - box[0]
    xs += [box[0] + 1e-6 * w, box[1] - 1e-6 * w]
    if kind not in ('NumericalPrior', 'InformativeBaselinePrior'):
        xs += [sup[0] - 1e-6 * w, sup[1] + 1e-6 * w, sup[0] - 3 * w, sup[1] + 3 * w]
    got = []
    for x in [x for x in xs if np.isfinite(x)]:
        put(V, name, x, rng.random() < .3)
        g = guarded(m, pr, P, V)
        want = lp(x)
        if want < -650 and kind == 'NumericalPrior':
            continue
        m.close(g, want, "outside-support-is-minus-inf" if want == -np.inf else "documented-density", rtol=1e-9, atol=1e-9, kind=kind, x=x, param=name)
        got.append((x, g))
        # only this parameter matters
        old = V.vector.copy()
        for k in P:
            if k != name:
                V.vector[V.indices[k]][0] += .01 * float(rng.normal())
        m.check(float(m.call(pr, P, V)) == g, "depends-on-its-parameter-only", kind=kind, param=name)
        V.vector[:] = old
    m.check(len({round(g, 9) for x, g in got}) > 1 or kind in ('HardBounds', 'InformativeBaselinePrior'), "depends-on-its-parameter", kind=kind, param=name)
    if proper:
        a, b = box

        def dens(x):
            put(V, name, x)
            return np.exp(float(pr(P, V)))
        if kind in ('Jeffreys', 'ModifiedJeffreys'):
            k0 = 0 if kind == 'Jeffreys' else pr.kneeval
            f = lambda u: dens(min(max(k0 + np.exp(u), a), b)) * np.exp(u)
            tot = integrate.quad(f, np.log(a - k0) + 1e-12, np.log(b - k0) - 1e-12, limit=200)[0]
        elif kind == 'HardBounds':
            tot = integrate.quad(dens, a + 1e-12 * w, b - 1e-12 * w)[0]
        else:
            g = np.linspace(a, b, 4001)
            tot = integrate.simpson([dens(x) for x in g], x=g)
        m.close(tot, 1., "normalised", rtol=0, atol=2e-3 if kind == 'NumericalPrior' else 1e-4, kind=kind)
    if isinstance(getattr(pr, 'param', None), str) or hasattr(pr, 'param_list'):
        m.check((getattr(pr, 'param', None) or pr.param_list[0]) == name, "names-its-parameter")
    m.sample(kind=kind, param=name, values=got[:4])


def u_multi(m, rng, i):
    """Numerical and user-defined priors on several parameters."""
    basis, npl, orbits, P, V = setup(rng)
    d = int(rng.integers(2, 4))
    names = [sorted(P)[j] for j in rng.permutation(len(P))[:d]]
    A = rng.normal(size=(d, d)) + 2 * np.eye(d)
    vals = A @ rng.normal(size=(d, 60)) + rng.normal(size=(d, 1))
    C = np.cov(vals) * (60 ** (-1. / (d + 4))) ** 2
    Ci, ld = np.linalg.inv(C), np.linalg.slogdet(2 * np.pi * C)[1]
    pr = m.call(rp.NumericalPrior, list(names), vals.copy())
    got = []
    up = rp.UserDefinedPrior(list(names), lambda p: got.append(list(p)) or float(np.dot(p, np.arange(1, d + 1))), 'tex')
    m.describe(names=names, basis=basis)
    for _ in range(4):
        x = vals[:, int(rng.integers(60))] + .3 * (A @ rng.normal(size=d))
        for k, v in zip(names, x):
            put(V, k, v)
        df = x[:, None] - vals
        want = np.logaddexp.reduce(-.5 * np.einsum('in,ij,jn->n', df, Ci, df)) - .5 * ld - np.log(60)
        m.close(guarded(m, pr, P, V), want, "documented-density", rtol=1e-8, atol=1e-8, kind="NumericalPrior %dD" % d)
        got.clear()
        m.close(guarded(m, up, P, V), float(np.dot(x, np.arange(1, d + 1))), "documented-density", rtol=1e-12, kind="UserDefined %dD" % d)
        m.close(got[0], x, "arguments-in-declared-order", rtol=0)


def u_ecc(m, rng, i):
    basis, npl, orbits, P, V = setup(rng)
    if rng.random() < .5:
        n = int(rng.integers(1, npl + 1))
        arg, planets = gen.pick(rng, [n, np.int64(n)]), list(range(1, n + 1))
    else:
        planets = [int(x) + 1 for x in rng.permutation(npl)[:int(rng.integers(1, npl + 1))]]
        arg = gen.pick(rng, [planets, tuple(planets), np.array(planets)])
    mode = int(rng.integers(3))
    ups = [float(rng.uniform(.2, .95)) for _ in planets] if mode == 0 else [gen.pick(rng, [.99, .5, .8])] * len(planets)
    if mode == 0:
        pr = m.call(rp.EccentricityPrior, arg, gen.pick(rng, [ups, np.array(ups), tuple(ups)]))
    elif mode == 1:
        u = ups[0]
        pr = m.call(rp.EccentricityPrior, arg, upperlims=gen.pick(rng, [u, np.float64(u)]))
    else:
        ups = [.99] * len(planets)
        pr = m.call(rp.EccentricityPrior, arg)
    m.describe(basis=basis, planets=planets, ups=ups, npl=npl)
    m.state("eccentricity prior", (basis, len(planets), mode))
    es = [o[2] for o in orbits]
    for rep in range(6):
        bad = None
        row = [float(rng.uniform(0, .95 * min([u for p, u in zip(planets, ups) if p == n + 1], default=.9))) for n in range(npl)]
        if rep >= 2:
            bad = gen.pick(rng, planets)
            row[bad - 1] = min(1.2, ups[planets.index(bad)] * float(rng.uniform(1.001, 1.2)))
        if rep == 5:        # a planet that is not listed may be as eccentric as it likes
            other = [n for n in range(1, npl + 1) if n not in planets]
            bad = None
            row = [min(x, .95 * min([u for p, u in zip(planets, ups) if p == n + 1], default=.9)) for n, x in enumerate(row)]
            if other:
                row[gen.pick(rng, other) - 1] = .999
        for n in range(npl):
            o = list(orbits[n])
            o[2] = row[n]
            w = float(rng.uniform(-np.pi, np.pi))
            d = {'e': row[n], 'se': gen.pick(rng, [1, 1, -1]) * np.sqrt(row[n]), 'secosw': np.sqrt(row[n]) * np.cos(w), 'sesinw': np.sqrt(row[n]) * np.sin(w),
                 'ecosw': row[n] * np.cos(w), 'esinw': row[n] * np.sin(w)}
            for k in basis.split():
                if k in d:
                    put(V, '%s%d' % (k, n + 1), d[k])
        if 'e' in basis.split() and rep == 4:
            bad = gen.pick(rng, planets)
            put(V, 'e%d' % bad, -float(rng.uniform(.001, .5)))
        g = guarded(m, pr, P, V)
        f = guarded(m, pr, P, V, finite=True)
        if bad is None:
            m.close(g, -np.sum(np.log(ups)), "documented-density", rtol=1e-12, atol=1e-12, kind="Eccentricity", es=row)
            m.check(f == g, "finite-mode-same-inside", kind="Eccentricity", got=f, want=g)
        else:
            m.same(g, -np.inf, "outside-support-is-minus-inf", kind="Eccentricity", es=row, planet=bad, basis=basis)
            m.check(np.isfinite(f) and f < -1e10, "finite-mode-finite-penalty", kind="Eccentricity", got=f)


def u_posk(m, rng, i):
    basis, npl, orbits, P, V = setup(rng)
    n = int(rng.integers(1, npl + 1))
    pr = m.call(rp.PositiveKPrior, gen.pick(rng, [n, np.int64(n)]))
    m.describe(basis=basis, npl=npl, n=n)
    logk = 'logk' in basis.split()
    m.state("positive K", (basis, n))
    for rep in range(5):
        ks = [float(10 ** rng.uniform(-3, 3)) for _ in range(npl)]
        bad = None
        if not logk and rep >= 2:
            bad = int(rng.integers(1, npl + 1))
            ks[bad - 1] *= -1
        for j, k in enumerate(ks, 1):
            put(V, ('logk%d' if logk else 'k%d') % j, np.log(k) if logk else k)
        g, f = guarded(m, pr, P, V), guarded(m, pr, P, V, finite=True)
        if bad is not None and bad <= n:
            m.same(g, -np.inf, "outside-support-is-minus-inf", kind="PositiveK", ks=ks)
            m.check(np.isfinite(f) and f < -1e10, "finite-mode-finite-penalty", kind="PositiveK")
        else:
            m.same(g, 0., "documented-density", kind="PositiveK", ks=ks, basis=basis)
            m.same(f, 0., "finite-mode-same-inside", kind="PositiveK")


def u_eclipse(m, rng, i):
    basis, npl, orbits, P, V = setup(rng)
    n = int(rng.integers(1, npl + 1))
    per, tp, e, w, k = ref.from_basis({x: P['%s%d' % (x, n)].value for x in basis.split()}, basis)
    true = float(ref.ts_from_tp(tp, per, e, w))
    err = per * float(10 ** rng.uniform(-4, -1))
    off = float(rng.normal(0, 3)) * err
    if abs(off) > .45 * per:
        off = 0.4 * per
    ts = true + off + per * int(rng.integers(-20, 20))
    m.describe(basis=basis, npl=npl, planet=n, orbit=(per, tp, e, w), err=err, off=off)
    m.state("eclipse prior", (basis, n))
    pr = m.call(rp.SecondaryEclipsePrior, gen.pick(rng, [n, np.int64(n)]), ts, err)
    s = err / per

    def want(orb, ts=ts):
        t0 = float(ref.ts_from_tp(orb[1], orb[0], orb[2], orb[3]))
        d = (t0 - ts) / orb[0]
        d -= np.round(d)
        z = err / orb[0]
        return -.5 * (d / z) ** 2 - .5 * np.log(2 * np.pi * z ** 2), abs(d / z)
    wv, z = want((per, tp, e, w))
    dph = (1e-9 + 1e-15 * abs(tp) / per * 50 + 1e-14 * abs(ts - tp) / per) / s
    tol = 1e-9 + z * dph + dph ** 2
    g = guarded(m, pr, P, V)
    m.close(g, wv, "documented-density", rtol=1e-9, atol=tol, kind="SecondaryEclipse", basis=basis)
    m.close(guarded(m, pr, P, V, finite=True), g, "finite-mode-same-inside", rtol=0, kind="SecondaryEclipse")
    # other planets, velocities and instruments do not matter
    old = V.vector.copy()
    for x in P:
        if not (x[:-1].rstrip('0123456789') in basis.split() and x.endswith(str(n))) and x.rstrip('0123456789') not in basis.split():
            V.vector[V.indices[x]][0] += float(rng.normal())
    kk = '%s%d' % (basis.split()[-1], n)
    V.vector[V.indices[kk]][0] *= 1.5
    for j in range(1, npl + 1):
        if j != n:
            o2 = gen.gentle_orbit(rng, 0, .8)
            for x, v in ref.to_basis(o2, basis).items():
                V.vector[V.indices['%s%d' % (x, j)]][0] = v
    m.close(float(m.call(pr, P, V)), g, "depends-on-its-planet-only", rtol=1e-9, atol=tol * 1e-3)
    V.vector[:] = old
    # the orbit does: shift the epoch and shape
    o2 = (per, tp + .1 * err, min(.9, e * 1.0 + .05), w + .2, k)
    for x, v in ref.to_basis(o2, basis).items():
        V.vector[V.indices['%s%d' % (x, n)]][0] = v
    wv, z = want(o2)
    m.close(guarded(m, pr, P, V), wv, "follows-the-orbit", rtol=1e-8, atol=1e-9 + z * dph + dph ** 2, basis=basis)


UNITS = [("one", u_one, 560, 5000), ("multi", u_multi, 40, 300), ("ecc", u_ecc, 180, 2000), ("posk", u_posk, 100, 800), ("eclipse", u_eclipse, 180, 2000)]
REQUIRED = ["documented-density", "outside-support-is-minus-inf", "normalised", "depends-on-its-parameter-only", "changes-no-parameter",
            "finite-mode-finite-penalty", "finite-mode-same-inside", "follows-the-orbit", "depends-on-its-planet-only"]
