"""C09: prior transforms against the densities they belong to, and the nested-sampling target against the posterior."""
import warnings
import numpy as np
import radvel
from radvel import prior as rp
from scipy import integrate
from .. import ref, gen
from . import c08

ANCHORS = ["prior.py", "posterior.py", "nested_sampling.py"]
RULE = ("Every prior with a transform (Gaussian, bounds, Jeffreys, modified Jeffreys, numerical, user-defined) over decades of its arguments at "
        "u from 1e-9 to 1-1e-9; posteriors with 1-15 free parameters in random order with extra constraints mixed in, priors listed in any order; "
        "and prior sets made improper in each documented way.")
ASSUMPTIONS = ["NumericalPrior documents a histogram approximation: its transform is compared with the CDF of its density to 0.06"]
KINDS = ['Gaussian', 'HardBounds', 'Jeffreys', 'ModifiedJeffreys', 'UserDefinedPrior', 'NumericalPrior']


def user_prior(rng, name):
    a, b = float(rng.normal(0, 5)), float(10 ** rng.uniform(-1, 1))
    # exponential distribution from a with scale b
    return rp.UserDefinedPrior([name], lambda p: (-(p[0] - a) / b - np.log(b)) if p[0] >= a else -np.inf, 'tex',
                               transform_func=lambda u: a - b * np.log1p(-u)), (a, a + 40 * b)


def make(rng, kind, name):
    while True:
        if kind == 'UserDefinedPrior':
            pr, box = user_prior(rng, name)
            return pr, box, box
        pr, lp, sup, box, proper = c08.make_one(rng, kind, name)
        if proper:
            if kind == 'NumericalPrior':
                vals = rng.normal(rng.normal(0, 5), 10 ** rng.uniform(-1, 1), int(gen.pick(rng, [300, 800])))
                pr = rp.NumericalPrior([name], vals.copy())
                s = vals.std()
                return pr, (vals.min(), vals.max()), (vals.min() - 3 * s, vals.max() + 3 * s)
            return pr, sup, box


def u_transform(m, rng, i):
    kind = KINDS[i % len(KINDS)]
    P = radvel.Parameters(1, basis='per tc e w k')
    P['gamma_j'] = radvel.Parameter(value=1.)
    name = gen.pick(rng, sorted(P))
    V = radvel.Vector(P)
    pr, sup, box = make(rng, kind, name)
    m.describe(kind=kind, args={k: v for k, v in vars(pr).items() if isinstance(v, (int, float))})
    m.state("transform", kind)
    ix = V.indices[name]

    def logp(x):
        V.vector[ix][0] = x
        return float(pr(P, V))
    us = np.sort(np.concatenate([rng.uniform(0, 1, 12), [1e-9, 1e-4, .5, 1 - 1e-4, 1 - 1e-9]]))
    xs = np.array([float(m.call(pr.transform, u)) for u in us])
    m.check((np.diff(xs) >= 0).all(), "monotone", kind=kind, xs=xs)
    if np.isfinite(sup).all():
        slack = 1e-12 * max(abs(sup[0]), abs(sup[1]))
        m.check((xs >= sup[0] - slack).all() and (xs <= sup[1] + slack).all(), "in-support", kind=kind, xs=xs, support=sup)
    else:
        m.check(np.isfinite(xs).all() and (xs >= sup[0]).all() and (xs <= sup[1]).all(), "in-support", kind=kind, xs=xs, support=sup)
    # cumulative distribution of the density the prior itself evaluates
    if kind == 'NumericalPrior':
        g = np.linspace(box[0], box[1], 3001)
    elif kind == 'Gaussian':
        g = np.linspace(box[0], box[1], 8001)
    elif kind in ('Jeffreys', 'ModifiedJeffreys'):
        k0 = 0 if kind == 'Jeffreys' else pr.kneeval
        g = k0 + np.exp(np.linspace(np.log(box[0] - k0), np.log(box[1] - k0), 4001))
        g[0], g[-1] = box
    else:
        g = np.linspace(box[0], box[1], 8001)
    with np.errstate(all='ignore'):
        d = np.array([np.exp(logp(x)) for x in g])
    if kind == 'HardBounds':
        d[0], d[-1] = d[1], d[-2]
    elif kind in ('Jeffreys', 'ModifiedJeffreys'):
        pass
    if kind == 'UserDefinedPrior':
        pass
    from scipy.interpolate import PchipInterpolator
    c = integrate.cumulative_simpson(d, x=g, initial=0)
    F = PchipInterpolator(g, c)
    for u, x in zip(us, xs):
        m.close(float(F(min(max(x, g[0]), g[-1]))), u, "inverse-of-the-cumulative-distribution", rtol=0,
                atol=.06 if kind == 'NumericalPrior' else 3e-4, kind=kind, u=u, x=x)
    m.close(float(c[-1]), 1., "normalised", rtol=0, atol=2e-3, kind=kind)
    m.sample(kind=kind, u=list(us[:4]), x=list(xs[:4]))
    # between two close arguments the slope is 1/density
    for u in rng.uniform(.05, .95, 3):
        if kind == 'NumericalPrior':
            break
        h = 1e-5
        a, b = float(pr.transform(u - h)), float(pr.transform(u + h))
        m.close((b - a) / (2 * h) * np.exp(logp(float(pr.transform(u)))), 1., "slope-is-inverse-density", rtol=1e-4, kind=kind, u=u)
    # and far into the tails
    for e in () if kind == 'NumericalPrior' else 10. ** rng.uniform(-9, -2, 6):
        for u, h in ((e, 1e-3 * e), (1 - e, max(1e-3 * e, 1e-10))):
            if h > e / 5:
                continue
            a, b, x = float(pr.transform(u - h)), float(pr.transform(u + h)), float(pr.transform(u))
            if 1e-15 * abs(x) < 1e-5 * h * np.exp(-logp(x)):
                m.close((b - a) / ((u + h) - (u - h)) * np.exp(logp(x)), 1., "slope-is-inverse-density", rtol=2e-3 + (h / e) ** 2, kind=kind, u=u, h=h)
                m.event("slopes in the tails")
    au = np.array([.2, .7, .4])
    if kind != 'UserDefinedPrior':
        m.close(m.call(pr.transform, au), [float(pr.transform(u)) for u in au], "element-by-element", rtol=1e-12)


def system(rng):
    s = gen.system(radvel, rng, npl=int(gen.pick(rng, [1, 1, 2, 3])), emax=.6, linear=False, nobs=8)
    post = radvel.posterior.Posterior(s.like)
    names = post.name_vary_params()
    own = {}
    for n in names:
        v = s.P[n].value
        w = float(10 ** rng.uniform(-2, .5))
        if n.startswith(('secosw', 'sesinw', 'ecosw', 'esinw')):
            own[n] = gen.pick(rng, [rp.HardBounds(n, -.9, .9), rp.Gaussian(n, v, .1), rp.HardBounds(n, -1, 1)])
        elif n.startswith('se') or (n[0] == 'e' and n[1:].isdigit()):
            own[n] = gen.pick(rng, [rp.HardBounds(n, 0., 1.), rp.HardBounds(n, -.3, .9)])
        elif n.startswith(('per', 'jit')) or (n[0] == 'k' and n[1:].isdigit()):
            own[n] = gen.pick(rng, [rp.Jeffreys(n, v * .5, v * 3), rp.ModifiedJeffreys(n, v * .5, v * 2, -1.), rp.HardBounds(n, v * .5, v * 2),
                                    rp.Gaussian(n, v, abs(v)), rp.NumericalPrior([n], rng.normal(v, v * .01, 300))])
        else:
            a = v - w
            own[n] = gen.pick(rng, [rp.Gaussian(n, v, w), rp.HardBounds(n, v - w, v + w), user_prior(rng, n)[0],
                                    rp.NumericalPrior([n], rng.normal(v, w, 300))])
    extra = []
    if rng.random() < .6:
        extra.append(rp.EccentricityPrior(s.npl, upperlims=float(rng.uniform(.5, .99))))
    if rng.random() < .6:
        extra.append(rp.PositiveKPrior(s.npl))
    if rng.random() < .3:
        extra.append(rp.SecondaryEclipsePrior(1, s.time_base, 5.))
    if rng.random() < .4:
        k = gen.pick(rng, list(s.P))
        v = s.P[k].value
        e = gen.pick(rng, [rp.Gaussian(k, v, 3.), rp.HardBounds(k, v - 5, v + 5), rp.NumericalPrior([k], rng.normal(v, 2, 80))])
        e.extra_constraint = True       # as the error message for doubled priors recommends
        extra.append(e)
    pri = list(own.values()) + extra
    post.priors = [pri[j] for j in rng.permutation(len(pri))]
    return s, post, names, own, extra


def ecc_ok(s, vals):
    return all(ref.from_basis({k: vals['%s%d' % (k, n)] for k in s.basis.split()}, s.basis)[2] < .98 for n in range(1, s.npl + 1))


def u_posterior(m, rng, i):
    s, post, names, own, extra = system(rng)
    if not names:
        raise Skip
    m.describe(basis=s.basis, names=names, kinds={k: type(v).__name__ for k, v in own.items()}, extra=[type(e).__name__ for e in extra])
    m.state("free parameters", len(names))
    m.call(post.check_proper_priors, _mon="proper-set-accepted")
    for rep in range(6):
        u = rng.uniform(.001, .999, len(names))
        u0 = u.copy()
        x = np.array(m.call(post.prior_transform, u))
        m.check(np.array_equal(u, u0), "argument-unchanged")
        want = [float(own[n].transform(v)) for n, v in zip(names, u)]
        m.close(x, want, "each-parameter-its-own-transform", rtol=1e-13, names=names)
        buf = u.copy()
        r = m.call(post.prior_transform, buf, inplace=True)
        m.close(buf, want, "each-parameter-its-own-transform", rtol=1e-13, how="inplace")
        m.close(r, want, "each-parameter-its-own-transform", rtol=1e-13, how="inplace result")
        with np.errstate(all='ignore'):
            ns = float(m.call(post.likelihood_ns_array, np.array(x)))
            lp = float(m.call(post.logprob_array, np.array(x)))
            post.likelihood.set_vary_params(x)
            lpr = sum(float(own[n](post.params, post.vector)) for n in names)
            ll = float(post.likelihood.logprob())
            ex = sum(float(e(post.params, post.vector)) for e in extra)
            el = float(m.call(post.extra_likelihood_array, np.array(x)))
        m.check(np.isfinite(ns), "target-finite", got=ns)
        if np.isfinite(lp):
            m.close(ns + lpr, lp, "target-factorises", rtol=1e-11, atol=1e-8, x=x)
            m.close(ns, ll + ex, "target-factorises", rtol=1e-11, atol=1e-8, against="likelihood plus extra constraints")
            m.close(el, ex, "extra-constraints-summed", rtol=1e-11, atol=1e-9)
            m.event("inside")
        elif np.isfinite(lpr):
            m.check(ns <= -1e90, "excluded-values-penalised", got=ns, logprob=lp)
            m.event("excluded")
        # an excluded value on purpose
    if any(isinstance(e, rp.PositiveKPrior) for e in extra):
        k = [n for n in names if n[0] == 'k' and n[1:].isdigit()]
        if k:
            x2 = np.array(x)
            x2[names.index(k[0])] = -5.
            m.check(float(m.call(post.likelihood_ns_array, x2)) <= -1e90, "excluded-values-penalised", what="negative K")
    # impossible data: likelihood not finite
    l0 = s.likes[0]
    y = l0.y.copy()
    l0.y[0] = gen.pick(rng, [np.nan, np.inf])
    with np.errstate(all='ignore'):
        m.check(np.isfinite(float(m.call(post.likelihood_ns_array, np.array(x)))), "target-finite", what="non-finite likelihood")
    l0.y[:] = y
    m.sample(names=names, u=list(u[:3]), x=list(x[:3]))


def u_refuse(m, rng, i):
    s, post, names, own, extra = system(rng)
    if not names:
        raise Skip
    base = list(post.priors)
    fixed = [k for k in s.P if k not in names]
    how = ['missing', 'doubled', 'fixed', 'extra-only', 'joint', 'none', 'doubled-numerical'][i % 7]
    n = gen.pick(rng, names)
    m.describe(how=how, param=n, names=names)
    m.state("refusal", how)
    m.call(post.check_proper_priors, _mon="proper-set-accepted")
    if how == 'missing':
        post.priors = [p for p in base if p is not own[n]]
    elif how == 'doubled':
        post.priors = base + [rp.Gaussian(n, 0., 1.)]
    elif how == 'doubled-numerical':
        post.priors = [rp.NumericalPrior([n], rng.normal(size=50))] + base
    elif how == 'fixed':
        if not fixed:
            raise Skip
        post.priors = base + [rp.HardBounds(gen.pick(rng, fixed), -1e9, 1e9)]
    elif how == 'extra-only':
        g = rp.Gaussian(n, 0., 1.)
        g.extra_constraint = True
        post.priors = [p for p in base if p is not own[n]] + [g]
    elif how == 'joint':
        if len(names) < 2:
            raise Skip

        a, b = (names[j] for j in rng.permutation(len(names))[:2])
        drop = gen.pick(rng, [(a,), (b,), (a, b), ()])
        joint = gen.pick(rng, [lambda: rp.NumericalPrior([a, b], rng.normal(size=(2, 50))), lambda: rp.UserDefinedPrior([a, b], lambda x: 0., 'joint')])()
        post.priors = [p for p in base if not any(p is own[k] for k in drop)] + [joint]
    else:
        post.priors = list(extra)
    order = rng.permutation(len(post.priors))
    post.priors = [post.priors[j] for j in order]
    m.raises(post.check_proper_priors, _mon="improper-set-refused", _detail={"how": how, "param": n})
    post.priors = base
    m.call(post.check_proper_priors, _mon="proper-set-accepted")
    # an additional constraint on a free or fixed parameter is fine
    g = rp.Gaussian(gen.pick(rng, list(s.P)), 0., 50.)
    g.extra_constraint = True
    post.priors = base + [g]
    m.call(post.check_proper_priors, _mon="proper-set-accepted")


from ..core import Skip as _Skip


class Skip(_Skip):
    def __init__(self, why="not applicable"):
        super().__init__(why)


UNITS = [("transform", u_transform, 180, 1800), ("posterior", u_posterior, 400, 4000), ("refuse", u_refuse, 210, 1400)]
REQUIRED = ["inverse-of-the-cumulative-distribution", "slope-is-inverse-density", "each-parameter-its-own-transform", "target-factorises",
            "excluded-values-penalised", "target-finite", "improper-set-refused", "proper-set-accepted"]
