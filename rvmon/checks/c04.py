"""C04: the velocity model is the superposition of its planets and trend."""
import copy
import numpy as np
import radvel
from .. import ref, gen

ANCHORS = ["model.py", "basis.py", "kepler.py"]
RULE = ("0-11 planets in every basis, epochs up to 2.4e6 d, with none/one/both trend terms declared in any order among other parameters, "
        "random reference epochs; evaluated whole, per planet, at permuted/subset/repeated times, after value changes and with planets "
        "exchanged; plus user-supplied forward models (GeneralRVModel).")
ASSUMPTIONS = ["a single planet's selection (planet_num=n) includes the trend, as the implementation documents by its call path"]


def vals(P):
    return {k: p.value for k, p in P.items()}


def setup(rng, npl=None, basis=None):
    npl = int(gen.pick(rng, [0, 1, 1, 2, 3, 4, 11])) if npl is None else npl
    basis = basis or gen.pick(rng, ref.BASES)
    base = float(gen.pick(rng, [0., 2455000.25, 7000., -300.]))
    orbits = [gen.gentle_orbit(rng, base, .9) if rng.random() < .8 else (gen.period(rng), base + rng.normal(), gen.ecc(rng, .95), gen.omega(rng),
              float(10 ** rng.uniform(-2, 3))) for _ in range(npl)]
    if basis.split()[-1] == 'k' and rng.random() < .3:      # amplitudes a fit may go through: negative, zero, tiny
        orbits = [o[:4] + (float(gen.pick(rng, [-o[4], o[4], 0., 1e-6])),) for o in orbits]
    if rng.random() < .2:
        orbits = [o[:2] + (float(gen.pick(rng, [0., o[2], 1e-3, 1e-8])),) + o[3:] for o in orbits]
    P = radvel.Parameters(npl, basis=basis)
    for n, o in enumerate(orbits, 1):
        for k, v in ref.to_basis(o, basis).items():
            P['%s%d' % (k, n)] = radvel.Parameter(value=v, vary=bool(rng.integers(2)))
    ex = [x for x in [('dvdt', rng.normal(0, .1)), ('curv', rng.normal(0, 1e-3)), ('gamma_j', rng.normal(0, 9)), ('jit_j', 2.), ('gp_amp', 3.),
                      ('my_param', 4.)] if rng.random() < .5]
    for j in rng.permutation(len(ex)):
        P[ex[j][0]] = radvel.Parameter(value=float(ex[j][1]), vary=bool(rng.integers(2)))
    tb = base + float(gen.pick(rng, [0., 13.25, -200.]))
    t = base + rng.uniform(-100, 100, int(rng.integers(1, 60)))
    return npl, basis, orbits, P, tb, t


def u_sum(m, rng, i):
    npl, basis, orbits, P, tb, t = setup(rng)
    m.describe(basis=basis, orbits=orbits, time_base=tb, extra=[k for k in P if not k[-1].isdigit()], n=len(t))
    m.state("planets x basis x trend", (npl, basis, 'dvdt' in P, 'curv' in P))
    before = gen.snapshot(P)
    mod = m.call(radvel.RVModel, P, time_base=tb)
    v0 = mod.vector.vector.copy()
    t0 = t.copy()
    got = m.call(mod, t)
    want, tol = ref.model_rv(vals(P), basis, npl, t, tb)
    m.check(np.shape(got) == t.shape, "one-velocity-per-time")
    m.check((np.abs(got - want) <= tol).all(), "sum-of-planets-and-trend", got=got, want=want, tol=tol)
    scale = 1e-12 * (1 + np.abs(want).max(initial=0) + sum(abs(o[4]) for o in orbits))
    # order and grouping of times
    p = rng.permutation(len(t))
    m.close(m.call(mod, t[p]), got[p], "order-of-times-irrelevant", atol=scale)
    h = len(t) // 2
    m.close(np.concatenate([m.call(mod, t[:h]), m.call(mod, t[h:])]), got, "times-independent", atol=scale)
    m.close(m.call(mod, np.concatenate([t, t])), np.concatenate([got, got]), "times-independent", atol=scale)
    # single planets
    trend = ref.model_rv(vals(P), basis, 0, t, tb)[0]
    parts = []
    for n in range(1, npl + 1):
        one = m.call(mod, t, planet_num=n)
        w1, t1 = ref.model_rv(vals(P), basis, npl, t, tb, planets=[n])
        m.check((np.abs(one - w1) <= t1).all(), "single-planet-selection", planet=n, got=one, want=w1)
        Q = radvel.Parameters(1, basis=basis)
        for k in basis.split():
            Q[k + '1'] = radvel.Parameter(value=P['%s%d' % (k, n)].value)
        alone = m.call(m.call(radvel.RVModel, Q, time_base=tb), t)
        m.close(one - trend, alone, "single-planet-selection", atol=scale, planet=n, against="planet on its own")
        parts.append(alone)
    if parts:
        m.close(got, np.sum(parts, axis=0) + trend, "sum-of-planets-and-trend", atol=scale, against="planets on their own")
    m.close(m.call(mod, t), got, "repeated-evaluation-equal", atol=0, rtol=0)
    m.same(gen.snapshot(P), before, "evaluation-changes-nothing")
    m.check(np.array_equal(mod.vector.vector, v0), "evaluation-changes-nothing", what="vector")
    m.check(np.array_equal(t, t0), "evaluation-changes-nothing", what="times")
    m.check(mod.time_base == tb and mod.num_planets == npl, "evaluation-changes-nothing", what="model attributes")
    m.sample(basis=basis, npl=npl, got=got[:3], want=want[:3])


def u_bases(m, rng, i):
    npl, basis, orbits, P, tb, t = setup(rng, npl=int(rng.integers(1, 4)))
    m.describe(orbits=orbits, time_base=tb)
    ref_v = None
    orbits = [o[:4] + (abs(o[4]) or 1.,) for o in orbits]
    for b in ref.BASES:
        Q = radvel.Parameters(npl, basis=b)
        for n, o in enumerate(orbits, 1):
            for k, v in ref.to_basis(o, b).items():
                Q['%s%d' % (k, n)] = radvel.Parameter(value=v)
        for k in ('dvdt', 'curv'):
            if k in P:
                Q[k] = P[k]
        v = m.call(m.call(radvel.RVModel, Q, time_base=tb), t)
        w, tol = ref.model_rv(vals(Q), b, npl, t, tb)
        m.check((np.abs(v - w) <= tol).all(), "same-velocities-in-every-basis", basis=b, got=v, want=w)
        if ref_v is None:
            ref_v, rtol = v, tol
        else:
            m.check((np.abs(v - ref_v) <= 4 * (tol + rtol)).all(), "same-velocities-in-every-basis", basis=b, got=v, want=ref_v)
        m.state("basis", b)


def u_edit(m, rng, i):
    """Changing one planet (in the dictionary, then synchronised, or in the vector) changes only its term."""
    npl, basis, orbits, P, tb, t = setup(rng, npl=int(gen.pick(rng, [2, 3, 4, 11])))
    mod = radvel.RVModel(P, time_base=tb)
    m.describe(basis=basis, npl=npl)
    for step in range(3):
        j = int(rng.integers(1, npl + 1))
        old = {n: m.call(mod, t, planet_num=n) for n in range(1, npl + 1)}
        whole = m.call(mod, t)
        new = gen.gentle_orbit(rng, 0, .9)
        how = gen.pick(rng, ['dict', 'vector', 'one'])
        row = ref.to_basis(new, basis)
        names = [gen.pick(rng, basis.split())] if how == 'one' else basis.split()
        for k in names:
            if how == 'dict':
                P['%s%d' % (k, j)].value = row[k]
            else:
                mod.vector.vector[mod.vector.indices['%s%d' % (k, j)]][0] = row[k]
        if how == 'dict':
            mod.vector.dict_to_vector()
        m.state("edit", (how, basis))
        for n in range(1, npl + 1):
            now = m.call(mod, t, planet_num=n)
            if n != j:
                m.close(now, old[n], "other-planets-unaffected", rtol=0, atol=0, changed=j, planet=n, how=how)
        if how != 'dict':
            mod.vector.vector_to_dict()
        cur = vals(P)
        if basis.split()[-1] == 'k' or True:
            orb = ref.from_basis({k: cur['%s%d' % (k, j)] for k in basis.split()}, basis)
            if orb[2] < .985:
                w, tol = ref.model_rv(cur, basis, npl, t, tb, planets=[j])
                v = m.call(mod, t, planet_num=j)
                m.check((np.abs(v - w) <= tol).all(), "changed-planet-follows", got=v, want=w, how=how)
        v = m.call(mod, t)
        sc = 1e-12 * (1 + np.abs(whole).max() + np.abs(v).max() + 1000 * npl)
        tr = ref.model_rv(cur, basis, 0, t, tb)[0]
        m.close(v - whole, m.call(mod, t, planet_num=j) - old[j], "only-that-term-changes", atol=sc)


def u_exchange(m, rng, i):
    """Planets in another order; other parameters declared in another order."""
    npl, basis, orbits, P, tb, t = setup(rng, npl=int(gen.pick(rng, [2, 3, 5])))
    m.describe(basis=basis, npl=npl)
    v = m.call(radvel.RVModel(P, time_base=tb), t)
    perm = rng.permutation(npl)
    Q = radvel.Parameters(npl, basis=basis)
    for n, o in enumerate(perm, 1):
        for k in basis.split():
            Q['%s%d' % (k, n)] = radvel.Parameter(value=P['%s%d' % (k, o + 1)].value)
    ex = [k for k in P if k not in Q]
    for j in rng.permutation(len(ex)):
        Q[ex[j]] = P[ex[j]]
    w = m.call(radvel.RVModel(Q, time_base=tb), t)
    m.close(w, v, "order-of-planets-irrelevant", atol=1e-12 * (1 + np.abs(v).max() + sum(abs(o[4]) for o in orbits)))
    # reference epoch: v(t; base b) with trend equals the shifted polynomial
    if 'dvdt' in P or 'curv' in P:
        tb2 = tb + 77.5
        a = m.call(radvel.RVModel(P, time_base=tb2), t)
        d = {k: P[k].value if k in P else 0. for k in ('dvdt', 'curv')}
        want = v - d['dvdt'] * 77.5 + d['curv'] * ((t - tb2) ** 2 - (t - tb) ** 2)
        m.close(a, want, "trend-relative-to-reference-epoch", atol=1e-9 * (1 + np.abs(want).max()))


def u_history(m, rng, i):
    """The velocities are those of the current values whatever was evaluated before (values moved between planets, tiny steps, back again)."""
    npl, basis, orbits, P, tb, t = setup(rng, npl=int(gen.pick(rng, [1, 2, 2, 3, 5])))
    mod = radvel.RVModel(P, time_base=tb)
    m.describe(basis=basis, npl=npl)
    vec, idx = mod.vector.vector, mod.vector.indices
    first = vec.copy()
    v1 = m.call(mod, t)
    for step in range(6):
        how = gen.pick(rng, ['exchange', 'exchange', 'tiny', 'back', 'rotate', 'trend', 'opposite'])
        a, b = (int(x) for x in rng.integers(1, npl + 1, 2))
        if how == 'exchange':
            for k in [gen.pick(rng, basis.split())] if rng.random() < .5 else basis.split():
                ia, ib = idx['%s%d' % (k, a)], idx['%s%d' % (k, b)]
                vec[ia][0], vec[ib][0] = vec[ib][0], vec[ia][0]
        elif how == 'rotate':
            rows = vec[:5 * npl, 0].reshape(npl, 5).copy()
            vec[:5 * npl, 0] = np.roll(rows, 1, axis=0).ravel()
        elif how == 'tiny':
            k = gen.pick(rng, basis.split())
            vec[idx['%s%d' % (k, a)]][0] *= 1 + 1e-7
        elif how == 'opposite':      # the same sum
            ka = idx['%s%d' % (basis.split()[1], a)]
            kb = idx['%s%d' % (basis.split()[-1], b)]
            vec[ka][0] -= .25
            vec[kb][0] += .25
        elif how == 'back':
            vec[:] = first
        else:
            k = gen.pick(rng, ['dvdt', 'curv'])
            if k in P:
                vec[idx[k]][0] += .01
        m.state("history", (how, basis, npl))
        mod.vector.vector_to_dict()
        cur = vals(P)
        if any(not ref.from_basis({k: cur['%s%d' % (k, n)] for k in basis.split()}, basis)[2] < .985 for n in range(1, npl + 1)):
            vec[:] = first
            continue
        want, tol = ref.model_rv(cur, basis, npl, t, tb)
        got = m.call(mod, t) if rng.random() < .7 else m.call(copy.deepcopy(mod), t)
        m.check((np.abs(got - want) <= tol).all(), "velocities-of-the-current-values", how=how, got=got[:4], want=want[:4], tol=tol if np.ndim(tol) == 0 else tol[:4])
        if how == 'back':
            m.close(got, v1, "velocities-of-the-current-values", rtol=0, atol=0, how=how)


def u_general(m, rng, i):
    """A user's forward model: called with times, parameters and vector (and further arguments); the trend is added."""
    P = radvel.Parameters(0)
    ex = [('dvdt', .3), ('curv', -.01), ('amp', 5.), ('gamma_j', 1.)]
    ex = [ex[j] for j in rng.permutation(4)][:int(rng.integers(1, 5))]
    for k, v in ex:
        P[k] = radvel.Parameter(value=v * float(rng.uniform(.5, 2)), vary=True)
    P['amp'] = radvel.Parameter(value=3., vary=True)
    calls = []

    def forward(t, params, vector, *a, **k):
        calls.append((len(t), params is P, a, k))
        return vector.vector[vector.indices['amp']][0] * np.sin(t) + k.get('shift', 0.)
    tb = float(rng.uniform(-5, 5))
    t = rng.uniform(-10, 10, int(rng.integers(1, 20)))
    m.describe(extra=[k for k, _ in ex], tb=tb)
    mod = m.call(radvel.model.GeneralRVModel, P, forward, time_base=tb)
    before = gen.snapshot(P)
    for sh in (0., 2.5):
        v = m.call(mod, t, shift=sh)
        want = 3. * np.sin(t) + sh + ref.model_rv(vals(P), P.basis.name, 0, t, tb)[0]
        m.close(v, want, "forward-model-plus-trend", rtol=1e-11, atol=1e-11)
    m.check(len(calls) == 2 and calls[-1][1] and calls[-1][3] == {'shift': 2.5}, "forward-model-called-as-documented", calls=calls)
    m.same(gen.snapshot(P), before, "evaluation-changes-nothing")


UNITS = [("sum", u_sum, 1040, 6000), ("bases", u_bases, 240, 1500), ("edit", u_edit, 400, 2500), ("exchange", u_exchange, 240, 1500), ("history", u_history, 320, 2500),
         ("general", u_general, 120, 400)]
REQUIRED = ["sum-of-planets-and-trend", "single-planet-selection", "order-of-times-irrelevant", "same-velocities-in-every-basis",
            "other-planets-unaffected", "only-that-term-changes", "evaluation-changes-nothing", "order-of-planets-irrelevant",
            "trend-relative-to-reference-epoch", "velocities-of-the-current-values", "forward-model-plus-trend"]
