"""C10: additivity of the posterior, with independent prior densities and likelihoods and recorded prior calls."""
import warnings
import numpy as np
import radvel
from radvel import prior as rp
from .. import ref, gen
from . import c08
from ..core import Skip

ANCHORS = ["posterior.py", "likelihood.py", "prior.py"]
RULE = ("Posteriors over random systems (0-3 planets, 1-3 instruments, decorrelation, marginalised offsets or a GP) with 0-9 priors of every class, "
        "repeated and overlapping ones included, attached in any order; values inside and outside of supports, through arrays and through the "
        "parameters.")
ASSUMPTIONS = ["no prior is placed on an offset that is marginalised analytically: its value is a by-product of the likelihood evaluation"]


def build(rng):
    gp = gen.pick(rng, [None, None, None, 'QuasiPer', 'SqExp'])
    s = gen.system(radvel, rng, npl=int(gen.pick(rng, [0, 1, 1, 2, 3])), gp=gp, emax=.6, nobs=int(rng.integers(5, 12)),
                   insts=None if gp is None else ['j'], linear=False if gp else None)
    return s


def priors(rng, s, n):
    """[(prior, value as a function of a dictionary of values)] with independent densities."""
    out = []
    names = sorted(k for k in s.P if not (k.startswith('gamma_') and gen.marginalised(s, gen.varies(s.P), k[6:])))
    if not names:
        return []
    for _ in range(n):
        kind = gen.pick(rng, ['Gaussian', 'HardBounds', 'Jeffreys', 'ModifiedJeffreys', 'NumericalPrior', 'UserDefinedPrior', 'ecc', 'posk', 'base'])
        k = gen.pick(rng, names)
        v = s.P[k].value
        if kind == 'Gaussian':
            sd = float(10 ** rng.uniform(-1, 2))
            mu = v + sd * float(rng.normal())
            out.append((rp.Gaussian(k, mu, sd), lambda d, k=k, mu=mu, sd=sd: -.5 * ((d[k] - mu) / sd) ** 2 - .5 * np.log(2 * np.pi * sd ** 2)))
        elif kind == 'HardBounds':
            a, b = v - float(rng.uniform(.1, 5)), v + float(rng.uniform(.1, 5))
            out.append((rp.HardBounds(k, a, b), lambda d, k=k, a=a, b=b: -np.log(b - a) if a < d[k] < b else -np.inf))
        elif kind in ('Jeffreys', 'ModifiedJeffreys'):
            kn = 0. if kind == 'Jeffreys' else v - float(rng.uniform(2, 9))
            if v - kn <= 0.01:
                continue
            a, b = kn + (v - kn) * float(rng.uniform(.3, .9)), kn + (v - kn) * float(rng.uniform(1.1, 5))
            pr = rp.Jeffreys(k, a, b) if kind == 'Jeffreys' else rp.ModifiedJeffreys(k, a, b, kn)
            out.append((pr, lambda d, k=k, a=a, b=b, kn=kn: -np.log(d[k] - kn) - np.log(np.log((b - kn) / (a - kn))) if a <= d[k] <= b else -np.inf))
        elif kind == 'NumericalPrior':
            vals = rng.normal(v, 2., 40)
            h = vals.std(ddof=1) * 40 ** -.2
            def kde(d, k=k, vals=vals, h=h):
                v = float(np.logaddexp.reduce(-.5 * ((d[k] - vals) / h) ** 2) - np.log(40 * h * np.sqrt(2 * np.pi)))
                return v if v > -600 else np.nan        # the density underflows to zero out there
            out.append((rp.NumericalPrior([k], vals), kde))
        elif kind == 'UserDefinedPrior':
            ks = [gen.pick(rng, names) for _ in range(2)]
            c = float(rng.normal())
            out.append((rp.UserDefinedPrior(ks, lambda p, c=c: -abs(p[0] - c) * .1 + .01 * p[1], 't'),
                        lambda d, ks=ks, c=c: -abs(d[ks[0]] - c) * .1 + .01 * d[ks[1]]))
        elif kind == 'ecc' and s.npl:
            up = float(rng.uniform(.62, .95))
            out.append((rp.EccentricityPrior(s.npl, up), lambda d, up=up: -s.npl * np.log(up) if all(
                ref.from_basis({x: d['%s%d' % (x, n)] for x in s.basis.split()}, s.basis)[2] <= up and d.get('e%d' % n, 0) >= 0
                for n in range(1, s.npl + 1)) else -np.inf))
        elif kind == 'posk' and s.npl:
            out.append((rp.PositiveKPrior(s.npl), lambda d: 0. if all(d.get('k%d' % n, 1) >= 0 for n in range(1, s.npl + 1)) else -np.inf))
        elif kind == 'base' and s.npl and 'per' in s.basis.split():
            B = float(rng.uniform(3, 100))
            out.append((rp.InformativeBaselinePrior('per1', B), lambda d, B=B: 0. if d['per1'] <= B else np.log(B / d['per1'])))
    if out and rng.random() < .2:
        out.append(out[0])          # the same prior attached twice counts twice
    return out


def total(ps, d):
    return float(sum(f(d) for p, f in ps))


def u_sum(m, rng, i):
    s = build(rng)
    post = radvel.posterior.Posterior(s.like)
    names = post.name_vary_params()
    ps = priors(rng, s, int(rng.integers(0, 10)))
    post.priors = [p for p, f in ps]
    vary = gen.varies(s.P)
    m.describe(basis=s.basis, npl=s.npl, insts=s.insts, gp=s.gp, priors=[type(p).__name__ for p, f in ps])
    m.state("number of priors", len(ps))
    np.seterr(all='ignore')
    for rep in range(4):
        d = gen.values(s.P)
        pr = total(ps, d)
        ll = gen.loglike(s, d, vary)
        tol = 1e-6 * (1 + abs(ll)) if np.isfinite(ll) else 0
        lp = float(m.call(post.logprob))
        if np.isfinite(pr):
            own = float(s.like.logprob())
            m.close(own, ll, "likelihood", rtol=0, atol=tol)
            m.close(lp, pr + own, "sum-of-priors-and-likelihood", rtol=1e-11, atol=1e-7, priors=[repr(p) for p, f in ps])
            m.close(lp, pr + ll, "sum-of-priors-and-likelihood", rtol=0, atol=tol + 1e-7)
            m.event("inside")
        elif pr == -np.inf:
            m.same(lp, -np.inf, "excluded-is-minus-inf", priors=[repr(p) for p, f in ps])
            m.event("excluded")
        m.same(float(m.call(post.neglogprob)), -lp, "negated")
        x = np.array(m.call(post.get_vary_params))
        x0 = x.copy()
        for _ in range(2):
            m.close(float(m.call(post.logprob_array, x)), lp, "array-and-parameters-agree", rtol=1e-13, atol=1e-11)
            m.close(float(m.call(post.neglogprob_array, x)), -lp, "negated", rtol=1e-13, atol=1e-11, how="array")
        m.check(np.array_equal(x, x0), "argument-unchanged")
        m.close(float(m.call(post.likelihood.logprob_array, x)), float(m.call(post.likelihood.logprob)), "array-and-parameters-agree", rtol=1e-13,
                how="likelihood")
        # what the posterior reports about the fit is its likelihood's
        own = float(post.likelihood.logprob())
        n, k = sum(len(s.data[q][0]) for q in s.insts), sum(vary.values())
        m.close(float(m.call(post.bic)), np.log(n) * k - 2 * own, "reports-its-likelihoods-criteria", rtol=1e-11, atol=1e-8, what="BIC")
        want = -2 * own + 2 * k + (2. * k * (k + 1) / (n - k - 1) if n - k - 1 > 0 else np.inf)
        m.close(float(m.call(post.aic)), want, "reports-its-likelihoods-criteria", rtol=1e-11, atol=1e-8, what="AICc")
        m.close(m.call(post.residuals), m.call(post.likelihood.residuals), "reports-its-likelihoods-residuals", rtol=0, atol=1e-12)
        # other values, outside of supports now and then
        y = []
        for q, v in zip(names, x):
            if q.startswith(('secosw', 'sesinw', 'ecosw', 'esinw')):
                y.append(float(rng.uniform(-.5, .5)))
            elif q.startswith('se') or (q[0] == 'e' and q[1:].isdigit()):
                y.append(float(rng.uniform(.05, .6)))
            elif q.startswith(('gp', 'jit', 'per')):
                y.append(abs(v) * float(rng.uniform(.6, 1.5)) + .01)
            else:
                y.append(v + float(rng.normal(0, gen.pick(rng, [.05, 2]))))
        a = float(m.call(post.logprob_array, np.array(y)))
        post.set_vary_params(y)
        m.close(float(m.call(post.logprob)), a, "array-and-parameters-agree", rtol=1e-13, atol=1e-11)
    m.sample(logprob=lp, prior=pr, like=ll, npriors=len(ps))


def u_increment(m, rng, i):
    """Attaching priors one by one, removing and reordering them."""
    s = build(rng)
    post = radvel.posterior.Posterior(s.like)
    ps = [(p, f) for p, f in priors(rng, s, 8) if np.isfinite(f(gen.values(s.P)))]
    m.describe(basis=s.basis, priors=[type(p).__name__ for p, f in ps])
    d = gen.values(s.P)
    base = float(m.call(post.logprob))
    m.close(base, float(s.like.logprob()), "without-priors-the-likelihood", rtol=1e-13)
    cur = base
    for p, f in ps:
        post.priors += [p]
        new = float(m.call(post.logprob))
        m.close(new - cur, f(d), "adding-a-prior-adds-its-value", rtol=1e-9, atol=1e-6 + 1e-12 * abs(base), prior=repr(p))
        m.close(float(p(post.params, post.vector)), f(d), "prior-value", rtol=1e-8, atol=1e-8, prior=repr(p))
        cur = new
    for _ in range(2):
        post.priors = [post.priors[j] for j in rng.permutation(len(post.priors))]
        m.close(float(m.call(post.logprob)), cur, "order-of-priors-irrelevant", rtol=1e-12, atol=1e-9)
    n = len(post.priors)
    for k in (0, n // 2, n):
        bad = rp.UserDefinedPrior([gen.pick(rng, sorted(s.P))], lambda p: -np.inf, 't')
        post.priors = post.priors[:k] + [bad] + post.priors[k:]
        m.same(float(m.call(post.logprob)), -np.inf, "excluded-is-minus-inf", position=k, of=n)
        m.same(float(m.call(post.logprob_array, post.get_vary_params())), -np.inf, "excluded-is-minus-inf", position=k, how="array")
        m.same(float(m.call(post.neglogprob)), np.inf, "negated")
        post.priors.remove(bad)
    m.close(float(m.call(post.logprob)), cur, "removing-a-prior-removes-its-value", rtol=1e-12, atol=1e-9)
    # a second posterior on the same likelihood has priors of its own
    other = radvel.posterior.Posterior(s.like)
    m.close(float(m.call(other.logprob)), base, "priors-belong-to-one-posterior", rtol=1e-13, atol=1e-10)
    other.priors += [rp.Gaussian(sorted(s.P)[0], 0, 1)]
    m.close(float(m.call(post.logprob)), cur, "priors-belong-to-one-posterior", rtol=1e-12, atol=1e-9)


def u_calls(m, rng, i):
    """Recording priors and likelihood: each is consulted, at the values in force."""
    s = build(rng)
    post = radvel.posterior.Posterior(s.like)
    names = post.name_vary_params()
    log = []

    class Rec(rp.Prior):
        def __init__(self, tag, v):
            self.tag, self.v = tag, v

        def __call__(self, params, vector):
            log.append((self.tag, {k: float(vector.vector[vector.indices[k]][0]) for k in params}))
            return self.v
    n = int(rng.integers(1, 7))
    vals = [float(rng.normal()) for _ in range(n)]
    post.priors = [Rec(j, v) for j, v in enumerate(vals)]
    m.describe(n=n, names=names)
    for _ in range(3):
        x = np.array([v + .001 * float(rng.normal()) for v in post.get_vary_params()])
        log.clear()
        lp = float(m.call(post.logprob_array, x))
        m.same(sorted({t for t, d in log}), list(range(n)), "every-prior-consulted")
        m.check(all(d[k] == v for t, d in log for k, v in zip(names, x)), "prior-sees-the-values-in-force", log=log[:1])
        m.close(lp, sum(vals) + float(s.like.logprob()), "sum-of-priors-and-likelihood", rtol=1e-12, atol=1e-9)


UNITS = [("sum", u_sum, 600, 5000), ("increment", u_increment, 300, 2500), ("calls", u_calls, 150, 1000)]
REQUIRED = ["sum-of-priors-and-likelihood", "excluded-is-minus-inf", "array-and-parameters-agree", "adding-a-prior-adds-its-value",
            "order-of-priors-irrelevant", "negated", "reports-its-likelihoods-criteria", "every-prior-consulted"]
