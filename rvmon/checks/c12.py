"""C12: every evaluation of a fit is recorded; the end state is compared with the record, with exact optima and with the start."""
import contextlib, io
import numpy as np
import radvel
from radvel import prior as rp
from .. import ref, gen
from . import c10
from ..core import Skip

ANCHORS = ["fitting.py", "posterior.py", "likelihood.py"]
RULE = ("Posteriors over random systems (all bases, 0-3 planets, 1-3 instruments, trends, decorrelation, GPs, marginalised offsets), priors of every class, "
        "any pattern of fixed and free parameters including none and one, started near, far from and at the optimum or next to a support's edge; "
        "several optimisers; repeated fits; linear problems with an exact solution; noiseless data.")
ASSUMPTIONS = ["the optimiser's tolerance is scipy's default for Powell, 1e-4 relative in log-probability; optimality is judged on well-posed problems only"]


def fit(m, post, method=None, verbose=False):
    """Run the fit with a recorder on the objective."""
    rec = []
    orig = type(post).logprob_array

    def logprob_array(x):
        v = orig(post, x)
        rec.append((np.array(x, float), float(v)))
        return v
    post.logprob_array = logprob_array
    try:
        kw = {} if method is None else {'method': method}
        with contextlib.redirect_stdout(io.StringIO()) as out:
            r = m.call(radvel.fitting.maxlike_fitting, post, verbose=verbose, **kw)
    finally:
        del post.logprob_array
    return r, rec, out.getvalue()


def consistent(m, r, s, before, marg):
    """What the result reports about itself agrees, and what was fixed is unchanged."""
    P = r.params
    lp = float(r.logprob())
    names = list(r.name_vary_params())
    x = np.array(r.get_vary_params(), float)
    for k, v in zip(names, x):
        m.close(P[k].value, v, "array-and-dictionary-agree", rtol=0, name=k)
    for k in P:
        m.same(bool(P[k].vary), before[k][1], "vary-flags-kept", name=k)
        m.same((P[k].linear, P[k].mcmcscale), before[k][2], "vary-flags-kept", name=k, what="linear, mcmcscale")
        if not P[k].vary and k not in marg:
            m.close(P[k].value, before[k][0], "fixed-parameters-kept", rtol=0, name=k)
            m.close(r.vector.vector[r.vector.indices[k]][0], before[k][0], "fixed-parameters-kept", rtol=0, name=k, what="vector")
    m.same(list(P), list(before), "parameters-kept")
    m.same(names, [k for k in r.vector.names if k in before and before[k][1]], "free-list-kept")
    m.close(float(r.logprob_array(x)), lp, "value-is-that-of-the-reported-parameters", rtol=1e-12, atol=1e-10, how="array")
    r.vector.dict_to_vector()
    m.close(float(r.logprob()), lp, "value-is-that-of-the-reported-parameters", rtol=1e-12, atol=1e-10, how="dictionary")
    vals = gen.values(P)
    for n in range(1, s.npl + 1):
        e = ref.from_basis({k: vals['%s%d' % (k, n)] for k in s.basis.split()}, s.basis)[2]
        if not 0 <= e <= .98 or vals.get('per%d' % n, 1.) <= 0 or max(abs(v) for v in vals.values()) > 1e8:
            m.event("ended on an eccentricity or period outside the model's range")
            return lp
    ll = gen.loglike(s, vals, {k: v[1] for k, v in before.items()})
    m.close(float(r.likelihood.logprob()), ll, "value-is-that-of-the-reported-parameters", rtol=1e-5, atol=1e-6, how="independent density")
    for i in marg:
        q = i[6:]
        t, y, err, dv = s.data[q]
        res = y - ref.model_rv(vals, s.basis, s.npl, t, s.time_base)[0]
        for d in s.decorr:
            res = res - vals['c1_%s_%s' % (d, q)] * (dv[d] - np.mean(dv[d]))
        w = 1 / (err ** 2 + vals['jit_' + q] ** 2)
        m.close(P[i].value, (w * res).sum() / w.sum(), "marginalised-offset-is-the-best-fit-one", rtol=1e-6, atol=1e-5, name=i)
    return lp


def u_fit(m, rng, i):
    gp = gen.pick(rng, [None] * 6 + ['QuasiPer', 'SqExp', 'Celerite'])
    mode = gen.pick(rng, ['any', 'any', 'few', 'one', 'none'])
    s = gen.system(radvel, rng, npl=int(gen.pick(rng, [0, 1, 1, 2, 3])), gp=gp, emax=.6, nobs=int(rng.integers(8, 20)), linear=False if gp else None,
                   insts=['j'] if gp else None, vary=(0, 1) if mode == 'any' else (0, 0, 0, 1) if mode == 'few' else (0,))
    P = s.P
    cand = [k for k in sorted(P) if not (k.startswith('gamma') and s.linear[k[6:]])]
    if mode == 'one':
        P[gen.pick(rng, cand)].vary = True
    free = [k for k in P if P[k].vary]
    if len(free) > 10:                                   # keep each fit short
        for k in [free[j] for j in rng.permutation(len(free))[10:]]:
            P[k].vary = False
    s.mod.vector.dict_to_vector()
    for lk in s.likes:
        lk.list_vary_params()
    post = radvel.posterior.Posterior(s.like)
    np.seterr(all='ignore')
    ps = [p for p, f in c10.priors(rng, s, int(rng.integers(0, 6))) if np.isfinite(f(gen.values(P)))]
    ps = [p for p in ps if not isinstance(p, rp.UserDefinedPrior)]      # those are unbounded above
    for k in cand:
        if rng.random() < .1:
            c = P[k].value * (1 + .1 * float(rng.normal()))
            ps.append(rp.UserDefinedPrior([k], lambda p, c=c: -abs(p[0] - c) * .1, 't'))
    if gp:                                               # kernels refuse negative hyperparameters
        ps += [rp.HardBounds(h, 1e-3, 1e4) for h in s.hnames]
    post.priors = ps
    if rng.random() < .6:                                # away from the optimum
        x = np.array(post.get_vary_params(), float)
        for _ in range(20):
            y = x * (1 + rng.normal(0, gen.pick(rng, [.001, .02, .3]), len(x)))
            if np.isfinite(post.logprob_array(y)):
                break
        else:
            y = x
        post.set_vary_params(list(y))
    post.logprob()
    post.vector.vector_to_dict()
    lp0 = float(post.logprob())
    if not np.isfinite(lp0):
        raise Skip("start is excluded")
    marg = [k for k in P if k.startswith('gamma') and gen.marginalised(s, gen.varies(P), k[6:])]
    before = {k: (float(p.value), bool(p.vary), (p.linear, p.mcmcscale)) for k, p in P.items()}
    method = gen.pick(rng, [None, None, None, 'Nelder-Mead', 'BFGS', 'L-BFGS-B', 'COBYLA', 'TNC', 'CG', 'SLSQP', 'Powell'])
    if gp and method not in (None, 'Nelder-Mead', 'Powell'):
        method = None                                    # gradient methods try undefined parameters next to excluded regions
    if method not in (None, 'Nelder-Mead', 'Powell'):
        ps = post.priors = [p for p in ps if not isinstance(p, rp.NumericalPrior)]   # refuses undefined parameters
        post.logprob()
        post.vector.vector_to_dict()
        lp0 = float(post.logprob())
    if method == 'COBYLA' and not len(post.get_vary_params()):
        method = None
    m.describe(basis=s.basis, npl=s.npl, insts=s.insts, gp=gp, mode=mode, method=method, priors=[type(p).__name__ for p in ps], free=post.name_vary_params())
    m.state("number of free parameters", len(post.get_vary_params()))
    m.state("optimiser", str(method))
    verbose = bool(rng.integers(2))
    r, rec, out = fit(m, post, method, verbose)
    lp1 = float(r.logprob())
    vals = np.array([v for x, v in rec])
    m.event("evaluations", len(rec))
    m.event("undefined evaluations", int(np.isnan(vals).sum()))
    m.event("excluded evaluations", int((vals == -np.inf).sum()))
    if len(rec) and not np.array_equal(rec[-1][0], r.get_vary_params()):
        m.event("ended elsewhere than at the last evaluation")
    m.check(lp1 >= lp0 - 1e-9 * (1 + abs(lp0)), "at-least-the-start", start=lp0, end=lp1)
    if verbose:
        m.check(("Initial loglikelihood = %f" % lp0) in out or abs(lp0) > 1e7, "printed-value", out=out[:200], lp0=lp0)
        m.check(("Final loglikelihood = %f" % lp1) in out or abs(lp1) > 1e7, "printed-value", out=out[:400], lp1=lp1)
    if len(rec):
        best = np.nanmax(vals)
        m.check(lp1 >= best - 1e-3 * (1 + abs(best)), "no-worse-than-what-it-found", best=best, end=lp1)
    m.same(list(r.priors), ps, "priors-kept")
    consistent(m, r, s, before, marg)
    # a second fit starts where the first one ended
    lp1 = float(r.logprob())
    before = {k: (float(p.value), bool(p.vary), (p.linear, p.mcmcscale)) for k, p in r.params.items()}
    if len(rec) < 3000:
        r2, rec2, out = fit(m, r, None)
        m.check(float(r2.logprob()) >= lp1 - 1e-9 * (1 + abs(lp1)), "at-least-the-start", start=lp1, end=float(r2.logprob()), rep=2)
        consistent(m, r2, s, before, marg)
    m.sample(start=lp0, end=lp1, evaluations=len(rec))


def u_linear(m, rng, i):
    """Problems that are quadratic in the free parameters: the optimum is known exactly."""
    basis = gen.pick(rng, [b for b in ref.BASES if 'logk' not in b.split()])
    s = gen.system(radvel, rng, npl=int(gen.pick(rng, [0, 1, 2])), basis=basis, emax=.5, nobs=int(rng.integers(12, 30)), vary=(0,), linear=False,
                   trend=gen.pick(rng, ['none', 'dvdt', 'both']))
    P = s.P
    lin = [k for k in P if (k[0] == 'k' and k[1:].isdigit()) or k.startswith(('gamma', 'c1_')) or k == 'dvdt']
    free = [k for k in lin if rng.random() < .7] or lin[:1]
    for k in free:
        P[k].vary = True
    s.mod.vector.dict_to_vector()
    vals = gen.values(P)
    post = radvel.posterior.Posterior(s.like)
    names = list(post.name_vary_params())
    A, b = np.zeros((len(names),) * 2), np.zeros(len(names))
    gauss = {}
    for k in names:
        if rng.random() < .3:
            gauss[k] = (vals[k] + float(rng.normal()), float(rng.uniform(.5, 3)))
            post.priors.append(rp.Gaussian(k, *gauss[k]))
    zero = dict(vals, **{k: 0. for k in names})

    def mean(v, inst):
        t, y, err, dv = s.data[inst]
        mu = ref.model_rv(v, s.basis, s.npl, t, s.time_base)[0] + v['gamma_' + inst]
        for d in s.decorr:
            mu = mu + v['c1_%s_%s' % (d, inst)] * (dv[d] - np.mean(dv[d]))
        return mu
    for inst in s.insts:
        t, y, err, dv = s.data[inst]
        w = 1 / (err ** 2 + vals['jit_' + inst] ** 2)
        m0 = mean(zero, inst)
        D = np.array([mean(dict(zero, **{k: 1.}), inst) - m0 for k in names])
        A += (D * w) @ D.T
        b += (D * w) @ (y - m0)
    for j, k in enumerate(names):
        if k in gauss:
            A[j, j] += gauss[k][1] ** -2
            b[j] += gauss[k][0] * gauss[k][1] ** -2
    sc = np.sqrt(np.diag(A))
    if not (sc > 0).all() or np.linalg.cond(A / np.outer(sc, sc)) > 1e3:
        raise Skip("ill-posed")
    opt = np.linalg.solve(A, b)
    best = float(post.logprob_array(opt))
    start = opt + rng.normal(0, 3, len(names)) / sc * gen.pick(rng, [.1, 1, 10])
    if any(k[0] == 'k' and v < 0 for k, v in zip(names, start)):
        m.event("negative K at the start")
    post.set_vary_params(list(start))
    lp0 = float(post.logprob())
    before = {k: (float(p.value), bool(p.vary), (p.linear, p.mcmcscale)) for k, p in P.items()}
    m.describe(basis=basis, npl=s.npl, insts=s.insts, free=names, priors=sorted(gauss), start=list(start))
    r, rec, out = fit(m, post)
    lp1 = consistent(m, r, s, before, [])
    tol = 1e-3 * (1 + abs(best))
    m.check(lp1 >= best - tol, "reaches-the-exact-optimum", best=best, end=lp1, start=lp0)
    m.check(lp1 <= best + 1e-6 * (1 + abs(best)), "never-above-the-optimum", best=best, end=lp1)
    x = np.array(r.get_vary_params())
    d = float((x - opt) @ A @ (x - opt))
    m.check(d <= 2 * tol + 1e-9, "reaches-the-exact-optimum", what="distance in sigma^2", distance=d, got=x, want=opt)
    m.sample(distance=d, gain=lp1 - lp0)


def u_recover(m, rng, i):
    """Noiseless data, start near the truth: injected parameters come back."""
    basis = gen.pick(rng, ref.BASES)
    npl = int(gen.pick(rng, [1, 1, 2]))
    orbits = []
    for n in range(npl):
        per = float(rng.uniform(6, 9) if n == 0 else rng.uniform(20, 30))
        orbits.append((per, 7000. + float(rng.uniform(-.5, .5)) * per, float(rng.uniform(.1, .5)), float(rng.uniform(-np.pi, np.pi)), float(rng.uniform(20, 60))))
    s = gen.system(radvel, rng, npl=npl, basis=basis, insts=gen.pick(rng, [['j'], ['k', 'j']]), trend=gen.pick(rng, ['none', 'dvdt']), decorr=[], vary=(1,),
                   linear=False, nobs=40, orbits=orbits, epoch=7000., noise=0., shuffle=True)
    P = s.P
    for q in s.insts:
        t, y, err, dv = s.data[q]
        P['jit_' + q].value, P['jit_' + q].vary = .5, False
        err[:] = 1.
    for lk in s.likes:
        lk.yerr[:] = 1.
    s.mod.vector.dict_to_vector()
    post = radvel.posterior.Posterior(s.like)
    names = list(post.name_vary_params())
    truth = np.array(post.get_vary_params(), float)
    best = float(post.logprob())
    # curvature of the log-probability at the truth: the scale of a step in each parameter
    def mean(x):
        v = dict(gen.values(P), **dict(zip(names, x)))
        return np.concatenate([ref.model_rv(v, s.basis, npl, s.data[q][0], s.time_base)[0] + v['gamma_' + q] for q in s.insts])
    D = []
    for j in range(len(names)):
        h = 1e-5 * max(1e-2, min(1., abs(truth[j])))
        e = np.zeros(len(names)); e[j] = h
        D.append((mean(truth + e) - mean(truth - e)) / (2 * h))
    D = np.array(D)
    F = D @ D.T / 1.25
    sc = np.sqrt(np.diag(F))
    if not np.isfinite(F).all() or np.linalg.cond(F / np.outer(sc, sc)) > 200:
        raise Skip("ill-posed")
    sig = np.sqrt(np.diag(np.linalg.inv(F)))
    start = truth + rng.normal(0, 1.5, len(names)) / sc
    post.set_vary_params(list(start))
    before = {k: (float(p.value), bool(p.vary), (p.linear, p.mcmcscale)) for k, p in P.items()}
    m.describe(basis=basis, orbits=orbits, insts=s.insts, start=list(start))
    r, rec, out = fit(m, post)
    r, rec, out = fit(m, r)
    before = {k: (before[k][0], before[k][1], before[k][2]) for k in before}
    lp1 = consistent(m, r, s, before, [])
    x = np.array(r.get_vary_params(), float)
    m.check(lp1 >= best - 4e-3 * (1 + abs(best)), "recovers-the-injected-signal", what="log-probability", best=best, end=lp1)
    m.check(lp1 <= best + 1e-6 * (1 + abs(best)), "never-above-the-optimum", best=best, end=lp1)
    m.check((np.abs(x - truth) <= 1.5 * sig).all(), "recovers-the-injected-parameters", names=names, got=x, truth=truth, sigma=sig)
    m.sample(worst=float(np.max(np.abs(x - truth) / sig)))


UNITS = [("fit", u_fit, 110, 2500), ("linear", u_linear, 60, 1200), ("recover", u_recover, 32, 500)]
REQUIRED = ["at-least-the-start", "no-worse-than-what-it-found", "array-and-dictionary-agree", "fixed-parameters-kept", "vary-flags-kept",
            "value-is-that-of-the-reported-parameters", "reaches-the-exact-optimum", "recovers-the-injected-parameters",
            "marginalised-offset-is-the-best-fit-one"]
