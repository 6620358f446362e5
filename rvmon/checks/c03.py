"""C03: basis conversions in all three representations against definitions written independently."""
import itertools
import numpy as np
import pandas as pd
import radvel
from .. import ref, gen

ANCHORS = ["basis.py", "model.py"]
RULE = ("Every ordered pair of the nine fitting bases, 1-4 planets, 0<=e<1 and any omega, K>0, extra trend/instrument parameters; "
        "as Parameters, as vector (object and array) and as table of samples; repeated and chained 2-6 conversions.")
ASSUMPTIONS = ["orbits are compared as per, e, w (mod 2 pi), periastron (mod per), K; at e=0 only velocity-relevant combinations"]
PAIRS = list(itertools.product(ref.BASES, ref.BASES))


def orbit(rng):
    per = gen.period(rng)
    e = gen.ecc(rng, 0.98, zero=rng.random() < .5)
    if 0 < e < 1e-6:
        e = 1e-6
    return per, float(rng.uniform(-1, 1)) * per + float(gen.pick(rng, [0, 100., 2455000.])), e, gen.omega(rng), float(10 ** rng.uniform(-2, 3))


def same_orbit(m, got, want, mon, **d):
    gp, gt, ge, gw, gk = [float(x) for x in got]
    wp, wt, we, ww, wk = [float(x) for x in want]
    ok = abs(gp - wp) <= 1e-11 * wp and abs(ge - we) <= 1e-10 and abs(gk - wk) <= 1e-10 * wk
    # angle between periastron direction and the mean longitude origin: compare tp (mod per) and w (mod 2pi)
    lim_w = 1e-10 + (1e-12 / max(we, 1e-30) if we > 0 else 0)
    q = np.sqrt((1 + we) / (1 - we)) / max(1 - we, 1e-3)
    if we > 0:
        ok = ok and ref.angle_diff(gw, ww) <= lim_w
        dph = (gt - wt) / wp
        dph -= round(dph)
        ok = ok and abs(dph) <= 1e-10 * q + lim_w + 4e-15 * abs(wt) / wp
    else:       # circular: only w - 2 pi tp / per matters
        a = 2 * np.pi * (-gt / wp) + gw - (2 * np.pi * (-wt / wp) + ww)
        ok = ok and ref.angle_diff(a, 0) <= 1e-9 + 1e-14 * abs(wt) / wp * 10
    return m.check(ok, mon, got=list(got), want=list(want), **d)


def encode(rng, o, basis, neg=True):
    """The orbit in that basis; its square root of e may as well be the negative one, as a sampler may take it there."""
    d = ref.to_basis(o, basis)
    if neg and 'se' in d and rng.random() < .4:
        d['se'] = -d['se']
    return d


def make(rng, orbits, basis, neg=True):
    P = radvel.Parameters(len(orbits), basis=basis)
    for n, o in enumerate(orbits, 1):
        for name, v in encode(rng, o, basis, neg).items():
            P['%s%d' % (name, n)] = radvel.Parameter(value=v, vary=bool(rng.integers(2)), mcmcscale=gen.pick(rng, [None, .5]))
    if rng.random() < .5:
        P['dvdt'] = radvel.Parameter(value=.01, vary=True)
        P['curv'] = radvel.Parameter(value=-.001, vary=False)
    if rng.random() < .5:
        P['gamma_x'] = radvel.Parameter(value=float(rng.normal()), vary=False, linear=True)
        P['jit_x'] = radvel.Parameter(value=1.5, vary=True)
    return P


def params_orbit(P, basis, n):
    return ref.from_basis({k: P['%s%d' % (k, n)].value for k in basis.split()}, basis)


def slots(row5, basis):
    names = basis.split()
    if len(names) != 5:
        raise ValueError
    return dict(zip(names, row5))


def extras(P):
    return {k: (p.value, p.vary, p.mcmcscale, p.linear) for k, p in P.items() if not k[-1].isdigit()}


def u_pairs(m, rng, i):
    a, b = PAIRS[i % len(PAIRS)]
    npl = int(rng.integers(1, 5))
    orbits = [orbit(rng) for _ in range(npl)]
    m.describe(pair=(a, b), orbits=orbits)
    m.state("basis pair x planets", (a, b, npl))
    P = make(rng, orbits, a)
    before = gen.snapshot(P)
    V = radvel.Vector(P)
    v0 = V.vector.copy()
    for rep in range(2):                    # twice: nothing in the conversion object may have changed
        B = P.basis
        Q = m.call(B.to_any_basis, P, b)
        m.same(gen.snapshot(P), before, "input-unchanged", pair=(a, b))
        m.check(B.name == a and B.params == a.split() and B.num_planets == npl, "conversion-object-unchanged", pair=(a, b), now=B.name)
        want = {'%s%d' % (k, n) for k in b.split() for n in range(1, npl + 1)}
        have = {k for k in Q if k[-1].isdigit()}
        m.check(want <= have, "has-requested-parameters", missing=sorted(want - have), pair=(a, b))
        m.check(have <= want, "has-no-leftover-parameters", extra=sorted(have - want), pair=(a, b))
        m.check(Q.basis.name == b and list(Q.planet_parameters) == b.split() and Q.num_planets == npl, "result-declares-basis", pair=(a, b))
        m.same(extras(Q), extras(P), "other-parameters-carried", pair=(a, b))
        if want <= have:
            for n, o in enumerate(orbits, 1):
                same_orbit(m, params_orbit(Q, b, n), o, "same-orbit-parameters", pair=(a, b), planet=n)
    # vector, as object and as array
    for src in (V, V.vector):
        w = m.call(P.basis.v_to_any_basis, src, b)
        m.check(np.array_equal(V.vector, v0), "input-unchanged", pair=(a, b), what="vector")
        m.check(np.shape(w) == v0.shape, "vector-shape-kept")
        m.check(not np.shares_memory(w, V.vector), "result-is-independent-of-input", pair=(a, b))
        for n, o in enumerate(orbits):
            same_orbit(m, ref.from_basis(slots(w[5 * n:5 * n + 5, 0], b), b), o, "same-orbit-vector", pair=(a, b), planet=n + 1)
        m.check(np.array_equal(np.asarray(w[5 * npl:], dtype=float), np.asarray(v0[5 * npl:], dtype=float), equal_nan=True), "other-parameters-carried", what="vector", pair=(a, b))
    # table of samples
    others = [[orbit(rng) for _ in range(npl)] for _ in range(3 if rng.random() > .04 else int(rng.integers(200, 1500)))]
    rows = [orbits] + others
    df = pd.DataFrame([{'%s%d' % (k, n): v for n, o in enumerate(r, 1) for k, v in encode(rng, o, a).items()} for r in rows])
    df['gamma_x'] = rng.normal(size=len(rows))
    df['lnprobability'] = rng.normal(size=len(rows))
    d0 = df.copy()
    out = m.call(P.basis.to_any_basis, df, b)
    m.check(df.equals(d0) and list(df.columns) == list(d0.columns), "input-unchanged", what="table", pair=(a, b))
    if m.check(want <= set(out.columns), "has-requested-parameters", what="table", pair=(a, b)):
        for r, orb in enumerate(rows):
            for n, o in enumerate(orb, 1):
                same_orbit(m, ref.from_basis({k: out['%s%d' % (k, n)].iloc[r] for k in b.split()}, b), o, "same-orbit-table",
                           pair=(a, b), planet=n, row=r)
    m.check('gamma_x' in out and np.array_equal(out['gamma_x'], d0['gamma_x']) and np.array_equal(out['lnprobability'], d0['lnprobability']),
            "other-parameters-carried", what="table", pair=(a, b))
    m.sample(pair=(a, b), orbit=orbits[0], converted={k: p.value for k, p in Q.items()})


def u_synth(m, rng, i):
    """The two halves: to the synthesis basis and from it, keeping or not keeping the old parameters."""
    b = ref.BASES[i % len(ref.BASES)]
    npl = int(rng.integers(1, 5))
    orbits = [orbit(rng) for _ in range(npl)]
    m.describe(basis=b, orbits=orbits)
    P = make(rng, orbits, b)
    before = gen.snapshot(P)
    for kw in ({}, {"noVary": True}, {"noVary": False}):
        S = m.call(P.basis.to_synth, P, **kw)
        m.same(gen.snapshot(P), before, "input-unchanged", basis=b)
        for n, o in enumerate(orbits, 1):
            same_orbit(m, [S['%s%d' % (k, n)].value for k in ('per', 'tp', 'e', 'w', 'k')], o, "same-orbit-parameters", basis=b)
        m.check(S.basis.name == 'per tp e w k', "result-declares-basis", basis=b)
        vin = radvel.Vector(P)
        sv = m.call(P.basis.v_to_synth, vin, **kw)
        m.check(not np.shares_memory(sv, vin.vector), "result-is-independent-of-input", basis=b)
        for n, o in enumerate(orbits):
            same_orbit(m, sv[5 * n:5 * n + 5, 0], o, "same-orbit-vector", basis=b)
            if o[2] > 0:
                for j, k in enumerate(('per', 'tp', 'e', 'w', 'k')):
                    m.close(sv[5 * n + j, 0], S['%s%d' % (k, n + 1)].value, "representations-agree", rtol=1e-12, atol=1e-12)
    S0 = gen.snapshot(S)
    for keep in (True, False, None):
        kw = {} if keep is None else {"keep": keep}
        for c in ref.BASES:
            R = m.call(S.basis.from_synth, S, c, **kw)
            m.same(gen.snapshot(S), S0, "input-unchanged", basis=c, keep=keep)
            for n, o in enumerate(orbits, 1):
                same_orbit(m, params_orbit(R, c, n), o, "same-orbit-parameters", basis=c, keep=keep)
            if keep in (True, None):
                m.check(all(k in R for k in S), "keep-keeps", basis=c)
    df = pd.DataFrame([{k: p.value for k, p in P.items()}] * 2)
    sd = m.call(P.basis.to_synth, df)
    for n, o in enumerate(orbits, 1):
        same_orbit(m, [sd['%s%d' % (k, n)].iloc[1] for k in ('per', 'tp', 'e', 'w', 'k')], o, "same-orbit-table", basis=b)
    pr = m.call(P.basis.from_synth, sd, 'per tc tp e w k')
    for n, o in enumerate(orbits, 1):
        same_orbit(m, [pr['%s%d' % (k, n)].iloc[0] for k in ('per', 'tp', 'e', 'w', 'k')], o, "same-orbit-table", basis=b)
        d = (pr['tc%d' % n].iloc[0] - float(ref.tc_from_tp(*o[1:2], o[0], o[2], o[3]))) / o[0]
        m.check(abs(d - round(d)) < 1e-8 * np.sqrt(1 / (1 - o[2]) ** 3) + 1e-14 * abs(o[1]) / o[0] * 4, "print-basis-transit-time", basis=b, d=d)
    prp = m.call(S.basis.from_synth, S, 'per tc tp e w k')
    for n, o in enumerate(orbits, 1):
        same_orbit(m, [prp['%s%d' % (k, n)].value for k in ('per', 'tp', 'e', 'w', 'k')], o, "same-orbit-parameters", basis='print')


def u_chain(m, rng, i):
    """Chains of conversions end at the same orbits, and the model evaluated from them gives the same velocities."""
    npl = int(rng.integers(1, 4))
    orbits = [gen.gentle_orbit(rng) for _ in range(npl)]
    chain = [gen.pick(rng, ref.BASES) for _ in range(int(rng.integers(3, 7)))]
    if i % 3 == 0:
        chain[-1] = chain[0]
    m.describe(chain=chain, orbits=orbits)
    m.state("chain", tuple(chain))
    P = make(rng, orbits, chain[0], neg=False)
    first = {k: p.value for k, p in P.items()}
    t = rng.uniform(-100, 100, 25)
    want = sum(ref.rv(t, *o)[0] for o in orbits)
    for k, c in (('dvdt', t), ('curv', t ** 2)):
        if k in P:
            want = want + P[k].value * c
    scale = sum(o[4] for o in orbits)
    v = radvel.Vector(P).vector.copy()
    Q = P
    for b in chain[1:]:
        v = m.call(Q.basis.v_to_any_basis, v, b)
        Q = m.call(Q.basis.to_any_basis, Q, b)
        for n, o in enumerate(orbits, 1):
            same_orbit(m, params_orbit(Q, b, n), o, "same-orbit-after-chain", chain=chain, at=b)
            same_orbit(m, ref.from_basis(slots(v[5 * n - 5:5 * n, 0], b), b), o, "same-orbit-after-chain", chain=chain, at=b, what="vector")
        mod = radvel.RVModel(Q, time_base=0.)
        m.close(m.call(mod, t), want, "same-velocities-after-chain", rtol=0, atol=1e-7 * scale + 1e-9, chain=chain, at=b)
    if chain[-1] == chain[0]:
        for k, val in first.items():
            if k.startswith('w') or k.startswith('t'):
                continue
            m.close(Q[k].value, val, "round-trip-values", rtol=1e-9, atol=1e-9, chain=chain, par=k)


UNITS = [("pairs", u_pairs, 1296, 4050), ("synth", u_synth, 360, 900), ("chain", u_chain, 640, 3000)]
REQUIRED = ["same-orbit-parameters", "same-orbit-vector", "same-orbit-table", "input-unchanged", "conversion-object-unchanged",
            "same-velocities-after-chain", "round-trip-values"]
