"""C06: the RV likelihood against an independent Gaussian density, numerical marginalisation and definitions."""
import numpy as np
import radvel
from scipy import integrate
from .. import ref, gen

ANCHORS = ["likelihood.py", "posterior.py"]
RULE = ("1-4 instruments with 1-40 observations each in any time order, errors and jitters over decades (jitter 0 included), random planets/basis/"
        "trend, 0-3 decorrelation variables (names that contain each other or underscores), offsets fixed, free or marginalised; "
        "observations and instruments permuted, values changed between evaluations.")
ASSUMPTIONS = ["the marginalised density is taken with a flat measure on the offset and the decorrelation vectors are centred on their plain mean, "
               "as the code documents"]


def tolerance(s, vals):
    """How far float64 velocities may move the log-likelihood."""
    out = 1e-9
    for i in s.insts:
        t, y, err, dv = s.data[i]
        v, tv = ref.model_rv(vals, s.basis, s.npl, t, s.time_base)
        r = np.abs(y - v - vals['gamma_' + i]) + sum(abs(vals['c1_%s_%s' % (d, i)]) * np.abs(dv[d] - dv[d].mean()) for d in s.decorr)
        var = err ** 2 + vals['jit_' + i] ** 2
        out += float(np.sum((r * tv * 2 + tv ** 2 + 1e-13 * r ** 2 + 1e-12 * r) / var)) + 1e-11 * len(t)
    return out * 2


def make(rng, **kw):
    k = dict(insts=gen.pick(rng, [['j'], ['k', 'j'], ['hires_rj', 'apf', 'lick'], ['a', 'ab'], ['a', 'b', 'c', 'd']]),
             decorr=gen.pick(rng, [[], [], ['airmass'], ['air', 'airmass'], ['airmass', 'air'], ['sky_flux', 'sky', 'x']]),
             nobs=gen.pick(rng, [None, None, 1, 2]), data_from_model=rng.random() < .7)
    k.update(kw)
    s = gen.system(radvel, rng, **k)
    for i in s.insts:
        if rng.random() < .25:
            s.P['jit_' + i].value = 0.
    s.mod.vector.dict_to_vector()
    return s


def mean_model(s, vals, i):
    t, y, err, dv = s.data[i]
    v, tv = ref.model_rv(vals, s.basis, s.npl, t, s.time_base)
    for d in s.decorr:
        v = v + vals['c1_%s_%s' % (d, i)] * (dv[d] - np.mean(dv[d]))
    return v, tv


def offsets(s, vals, vary, i):
    if gen.marginalised(s, vary, i):
        t, y, err, dv = s.data[i]
        w = 1 / (err ** 2 + vals['jit_' + i] ** 2)
        return float(np.sum(w * (y - mean_model(s, vals, i)[0])) / w.sum())
    return vals['gamma_' + i]


def u_density(m, rng, i):
    s = make(rng)
    post = m.call(radvel.posterior.Posterior, s.like)
    m.describe(basis=s.basis, npl=s.npl, insts=s.insts, decorr=s.decorr, linear=s.linear, nobs=[len(s.data[k][0]) for k in s.insts])
    for rep in range(2):
        vals, vary = gen.values(s.P), gen.varies(s.P)
        marg = [gen.marginalised(s, vary, k) for k in s.insts]
        m.state("instruments x decorr x marginalised", (len(s.insts), len(s.decorr), tuple(marg)))
        before = [tuple(np.array(a).copy() for a in s.data[k][:3]) for k in s.insts]
        lp = float(m.call(s.like.logprob))
        want = gen.loglike(s, vals, vary)
        tl = tolerance(s, vals)
        m.close(lp, want, "density", rtol=1e-12, atol=tl, marginalised=marg)
        # per instrument
        for k, l in zip(s.insts, s.likes):
            one = float(m.call(l.logprob))
            m.close(one, gen.inst_loglike(s, vals, k, vary), "density-per-instrument", rtol=1e-12, atol=tl, inst=k)
            e = m.call(l.errorbars)
            m.close(e, np.sqrt(s.data[k][2] ** 2 + vals['jit_' + k] ** 2), "error-bars-include-jitter", rtol=1e-12)
        m.close(sum(float(l.logprob()) for l in s.likes), lp, "sum-over-instruments", rtol=1e-12, atol=1e-9)
        m.close(float(m.call(s.like.neglogprob)), -lp, "negated", rtol=1e-12, atol=1e-10)
        # alignment of everything element by element
        cat = lambda j: np.concatenate([np.asarray(s.data[k][j], float) for k in s.insts])
        m.close(m.call(lambda: np.array(s.like.x)), cat(0), "times-aligned", rtol=0)
        m.close(np.array(s.like.y), cat(1), "velocities-aligned", rtol=1e-13, atol=1e-10)
        m.close(np.array(s.like.yerr), cat(2), "errors-aligned", rtol=0)
        m.same([str(x) for x in s.like.telvec], [k for k in s.insts for _ in range(len(s.data[k][0]))], "labels-aligned")
        res = m.call(s.like.residuals)
        wr = np.concatenate([s.data[k][1] - mean_model(s, vals, k)[0] - offsets(s, vals, vary, k) for k in s.insts])
        tr = np.concatenate([mean_model(s, vals, k)[1] + 1e-11 * (1 + np.abs(s.data[k][1]) + abs(vals['gamma_' + k])) for k in s.insts])
        sc = np.concatenate([np.full(len(s.data[k][0]), max(1., np.ptp(1 / s.data[k][2] ** 2))) for k in s.insts])
        if m.check(np.shape(res) == wr.shape, "residuals-aligned"):
            m.check((np.abs(res - wr) <= 20 * tr).all(), "residuals-are-data-minus-mean", got=res, want=wr)
        m.close(m.call(s.like.errorbars), np.concatenate([np.sqrt(s.data[k][2] ** 2 + vals['jit_' + k] ** 2) for k in s.insts]),
                "error-bars-aligned", rtol=1e-12)
        # definitions
        n, kf = len(wr), sum(vary.values())
        m.close(float(m.call(s.like.bic)), np.log(n) * kf - 2 * lp, "bic-definition", rtol=1e-12, atol=1e-9)
        aic = float(m.call(s.like.aic))
        m.close(aic, -2 * lp + 2 * kf + (2. * kf * (kf + 1)) / (n - kf - 1) if n - kf - 1 > 0 else np.inf, "aicc-definition",
                rtol=1e-12, atol=1e-9)
        for k, b in zip(s.insts, before):
            l = s.likes[s.insts.index(k)]
            m.check(all(np.array_equal(a, c) for a, c in zip(s.data[k][:3], b)), "data-unchanged")
            m.check(np.array_equal(l.x, b[0]) and np.array_equal(l.y, b[1]) and np.array_equal(l.yerr, b[2]), "data-unchanged", where="likelihood")
        now = gen.values(s.P)
        m.same({k: v for k, v in now.items() if not k.startswith('gamma')}, {k: v for k, v in vals.items() if not k.startswith('gamma')},
               "parameters-unchanged")
        # new values
        m.sample(lp=lp, want=want, n=n, free=kf)
        for k in s.P:
            if k.startswith(('gamma', 'c1')):
                s.P[k].value += float(rng.normal(0, 5))
            if k.startswith('jit'):
                s.P[k].value = float(10 ** rng.uniform(-2, 2))
            if k.startswith(('k', 'logk')):
                s.P[k].value *= float(rng.uniform(.5, 1.5))
        s.mod.vector.dict_to_vector()


def u_reorder(m, rng, i):
    """Observations and instruments in another order."""
    s = make(rng, nobs=None)
    m.describe(basis=s.basis, npl=s.npl, insts=s.insts, decorr=s.decorr, linear=s.linear)
    lp = float(m.call(s.like.logprob))
    vals = gen.values(s.P)
    res = dict(zip(s.insts, [np.array(m.call(l.residuals)) for l in s.likes]))
    tl = tolerance(s, vals)
    data = dict(s.data)
    perms = {}
    for k in s.insts:
        t, y, e, dv = data[k]
        p = perms[k] = rng.permutation(len(t))
        s.data[k] = (t[p], y[p], e[p], {d: v[p] for d, v in dv.items()})
    order = [s.insts[j] for j in rng.permutation(len(s.insts))]
    P2 = radvel.Parameters(s.npl, basis=s.basis)
    names = [k for k in s.P if k not in P2]
    for k in list(P2) + [names[j] for j in rng.permutation(len(names))]:
        P2[k] = radvel.Parameter(value=s.P[k].value, vary=s.P[k].vary, linear=s.P[k].linear)
    mod = radvel.RVModel(P2, time_base=s.time_base)
    likes = [gen.make_like(radvel, s, mod, k) for k in order]
    like = m.call(radvel.likelihood.CompositeLikelihood, likes)
    m.close(float(m.call(like.logprob)), lp, "order-irrelevant", rtol=1e-11, atol=tl)
    off = 0
    r2 = m.call(like.residuals)
    for k in order:
        n = len(perms[k])
        m.close(r2[off:off + n], res[k][perms[k]], "residuals-follow-their-observation", rtol=0, atol=1e-8 * (1 + np.abs(res[k]).max()))
        m.check(all(str(x) == k for x in like.telvec[off:off + n]), "labels-follow-their-observation")
        off += n
    # splitting one instrument's data must not change the total when everything is shared
    if not any(gen.marginalised(s, gen.varies(s.P), k) for k in s.insts) and not s.decorr:
        k = order[0]
        t, y, e, dv = s.data[k]
        h = len(t) // 2
        if h:
            full = float(m.call(likes[0].logprob))
            parts = sum(float(m.call(radvel.likelihood.RVLikelihood(mod, t[sl], y[sl], e[sl], suffix='_' + k).logprob))
                        for sl in (slice(None, h), slice(h, None)))
            m.close(parts, full, "additive-over-observations", rtol=1e-11, atol=tl)


def u_margin(m, rng, i):
    """Marginalised offset against quadrature of the code's own density over the offset."""
    s = make(rng, insts=['j'], linear=True, npl=int(rng.integers(0, 3)), nobs=gen.pick(rng, [2, 5, 15]), data_from_model=True)
    m.describe(basis=s.basis, npl=s.npl, decorr=s.decorr, n=len(s.data['j'][0]))
    marg = float(m.call(s.like.logprob))
    g0 = float(s.P['gamma_j'].value)
    vals = gen.values(s.P)
    w = 1 / (s.data['j'][2] ** 2 + vals['jit_j'] ** 2)
    centre = offsets(s, vals, {}, 'j')
    sd = w.sum() ** -.5
    P2 = radvel.Parameters(s.npl, basis=s.basis)
    for k in s.P:
        P2[k] = radvel.Parameter(value=s.P[k].value, vary=s.P[k].vary, linear=False)
    mod2 = radvel.RVModel(P2, time_base=s.time_base)
    like2 = gen.make_like(radvel, s, mod2, 'j')
    ix = mod2.vector.indices['gamma_j']

    def logd(g):
        mod2.vector.vector[ix][0] = g
        return float(like2.logprob())
    gs = np.linspace(centre - 12 * sd, centre + 12 * sd, 801)
    ls = np.array([m.call(logd, g) for g in gs])
    top = ls.max()
    want = top + np.log(integrate.simpson(np.exp(ls - top), x=gs))
    m.close(marg, want, "marginal-equals-quadrature", rtol=1e-9, atol=1e-6)
    # the value left in the offset is the conditional mean, and free or non-linear offsets are not marginalised
    m.close(float(s.mod.vector.vector[s.mod.vector.indices['gamma_j']][0]), centre, "offset-is-conditional-mean", rtol=1e-8, atol=1e-6)
    s.P['gamma_j'].vary = True
    s.P['gamma_j'].value = g0
    s.mod.vector.dict_to_vector()
    m.close(float(m.call(s.like.logprob)), logd(g0), "free-offset-not-marginalised", rtol=1e-12, atol=1e-9)
    m.check(s.mod.vector.vector[s.mod.vector.indices['gamma_j']][0] == g0, "free-offset-not-marginalised", what="value")
    # shifting all data does not change a marginal
    s.P['gamma_j'].vary = False
    s.mod.vector.dict_to_vector()
    t, y, e, dv = s.data['j']
    like3 = m.call(radvel.likelihood.RVLikelihood, s.mod, t, y + 1234.5, e, suffix='_j', decorr_vars=s.decorr, decorr_vectors=dv)
    m.close(float(m.call(like3.logprob)), marg, "marginal-ignores-offset", rtol=1e-9, atol=1e-5)


def u_loglike(m, rng, i):
    """loglike_jitter on its own, against scipy's normal density, over many decades."""
    n = int(gen.pick(rng, [1, 2, 10, 500]))
    r = rng.normal(0, 10 ** rng.uniform(-3, 3), n)
    sig = 10 ** rng.uniform(-2, 3, n)
    jit = float(gen.pick(rng, [0., 1e-6, 1., -2., 1e3]))
    from scipy.stats import norm
    r0, s0 = r.copy(), sig.copy()
    got = m.call(radvel.likelihood.loglike_jitter, r, sig, jit)
    want = norm.logpdf(r, 0, np.sqrt(sig ** 2 + jit ** 2)).sum()
    m.describe(n=n, jit=jit)
    m.close(float(got), want, "jitter-density", rtol=1e-10, atol=1e-9)
    m.check(np.array_equal(r, r0) and np.array_equal(sig, s0), "data-unchanged")


UNITS = [("density", u_density, 780, 6000), ("reorder", u_reorder, 300, 2500), ("margin", u_margin, 180, 1200), ("loglike", u_loglike, 120, 600)]
REQUIRED = ["density", "density-per-instrument", "sum-over-instruments", "residuals-are-data-minus-mean", "error-bars-aligned", "labels-aligned",
            "bic-definition", "aicc-definition", "order-irrelevant", "marginal-equals-quadrature", "velocities-aligned"]
