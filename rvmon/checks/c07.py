"""C07: GP likelihoods and predictions against a dense multivariate normal, over histories of calls."""
import numpy as np
import radvel
from radvel import gp as rgp
from .. import ref, gen

ANCHORS = ["gp.py", "likelihood.py"]
RULE = ("All four kernels, hyperparameters shared or per instrument (suffixed names), 3-40 observations in any order, 0-2 planets and trend; histories "
        "of hyperparameter changes (including a zero one and ones that are not positive definite), evaluations, predictions at 1-60 times "
        "(observed, unsorted, as many as observations, far away) and residuals; single and composite likelihoods.")
ASSUMPTIONS = ["the dense oracle is only compared where the covariance is numerically well conditioned (condition number below 1e11)",
               "negative or non-finite hyperparameters of the quasi-periodic kernel are refused with ValueError by design"]


class G:
    pass


def setup(rng, kern=None, ninst=None, n=None):
    g = G()
    g.kern = kern or gen.pick(rng, list(ref.KERNELS))
    base = ref.KERNELS[g.kern]
    g.insts = [['j'], ['j'], ['j', 'hires_k'], ['a', 'b', 'c']][int(rng.integers(4))] if ninst is None else list('abc')[:ninst]
    g.tb = float(gen.pick(rng, [0., 2455000.]))
    g.npl = int(rng.integers(0, 3))
    g.basis = gen.pick(rng, ref.BASES)
    orbits = [gen.gentle_orbit(rng, g.tb, .6) for _ in range(g.npl)]
    P = radvel.Parameters(g.npl, basis=g.basis)
    for k, o in enumerate(orbits, 1):
        for name, v in ref.to_basis(o, g.basis).items():
            P['%s%d' % (name, k)] = radvel.Parameter(value=v, vary=bool(rng.integers(2)))
    g.h = {}
    pool = []
    for i in g.insts:
        g.h[i] = []
        for name in base:
            own = len(g.insts) > 1 and rng.random() < .4
            nm = name + '_' + i if own or (len(g.insts) == 1 and rng.random() < .2) else name
            g.h[i].append(nm)
            if nm not in pool:
                pool.append(nm)
    for i in g.insts:
        pool += ['gamma_' + i, 'jit_' + i]
    pool += [x for x in ('dvdt', 'curv') if rng.random() < .4]
    for j in rng.permutation(len(pool)):
        P[pool[j]] = radvel.Parameter(value=value(rng, pool[j]), vary=bool(rng.integers(2)))
    g.P = P
    g.pool = pool
    g.mod = radvel.RVModel(P, time_base=g.tb)
    g.data = {}
    for i in g.insts:
        k = int(rng.integers(3, 41)) if n is None else n
        t = g.tb + rng.uniform(-40, 80, k)
        if rng.random() < .4:
            t = np.sort(t)
        g.data[i] = (t, rng.normal(0, 15, k), 10 ** rng.uniform(-.5, .7, k))
    g.likes = {i: like(g, i) for i in g.insts}
    g.comp = radvel.likelihood.CompositeLikelihood(list(g.likes.values())) if len(g.insts) > 1 else g.likes[g.insts[0]]
    return g


def like(g, i, mod=None, perm=None):
    t, y, e = g.data[i]
    if perm is not None:
        t, y, e = t[perm], y[perm], e[perm]
    mod = mod or g.mod
    if g.kern == 'Celerite':
        return radvel.likelihood.CeleriteLikelihood(mod, t, y, e, list(g.h[i]), suffix='_' + i)
    return radvel.likelihood.GPLikelihood(mod, t, y, e, hnames=list(g.h[i]), suffix='_' + i, kernel_name=g.kern)


WIDE = {'gp_amp': (-3, 2), 'gp_length': (-3, 3), 'gp_explength': (-3, 3), 'gp_per': (-1, 3), 'gp_perlength': (-1.5, 2)}


def value(rng, name, wide=False):
    for b in ('gp_perlength', 'gp_explength', 'gp_length', 'gp_amp', 'gp_per', 'gp_B', 'gp_C', 'gp_L', 'gp_Prot'):
        if name.startswith(b):
            if wide and b in WIDE:
                return float(10 ** rng.uniform(*WIDE[b]))
            lo, hi = gen.HYPER[b]
            return float(np.exp(rng.uniform(np.log(lo), np.log(hi))))
    if name.startswith('jit'):
        return float(gen.pick(rng, [1, 1, 1, -1]) * 10 ** rng.uniform(-1, 1))
    return float(rng.normal(0, {'g': 10, 'd': .05, 'c': 1e-3}[name[0]]))


def cur(g):
    v = g.mod.vector
    return {k: float(v.vector[v.indices[k]][0]) for k in g.P}


def hyper(g, i, vals):
    return {b: vals[n] for b, n in zip(ref.KERNELS[g.kern], g.h[i])}


def system(g, i, vals):
    t, y, e = g.data[i]
    r = y - ref.model_rv(vals, g.basis, g.npl, t, g.tb)[0] - vals['gamma_' + i]
    K = ref.kernel(g.kern, hyper(g, i, vals), t, t) + np.diag(e ** 2 + vals['jit_' + i] ** 2)
    return t, r, K


def observe(m, g, how, lk=None):
    vals = cur(g)
    lk = lk or g.likes
    total, ok = 0., True
    for i in g.insts:
        t, r, K = system(g, i, vals)
        ev = np.linalg.eigvalsh(K)
        got = float(m.call(lk[i].logprob))
        if ev[0] < -1e-9 * ev[-1]:
            m.same(got, -np.inf, "not-positive-definite-is-minus-inf", eig=ev[0], how=how, kern=g.kern)
            ok = False
        elif ev[0] > 1e-11 * ev[-1]:
            want = ref.mvn_loglike(r, K)
            m.close(got, want, "log-density", rtol=1e-8 if g.kern == "Celerite" else 1e-10, atol=1e-7 * (1 + 1e-4 * ev[-1] / ev[0]) * (1 + .001 * abs(want)), how=how, kern=g.kern, inst=i)
            total += want
        else:
            ok = False
            m.check(not np.isnan(got), "singular-gives-a-number")
    if ok and len(g.insts) > 1:
        m.close(float(m.call(g.comp.logprob)), total, "composite-is-the-sum", rtol=1e-8, atol=1e-5, how=how)


def predict(m, g, i, rng, how, lk=None):
    vals = cur(g)
    t, r, K = system(g, i, vals)
    ev = np.linalg.eigvalsh(K)
    if ev[0] < 1e-9 * ev[-1]:
        return
    mode = gen.pick(rng, ['obs', 'few', 'grid', 'same-n', 'far', 'mixed'])
    tp = {'obs': lambda: t.copy(), 'few': lambda: rng.uniform(t.min() - 5, t.max() + 5, int(rng.integers(1, 4))),
          'grid': lambda: np.linspace(t.min() - 10, t.max() + 10, 60), 'same-n': lambda: rng.uniform(t.min(), t.max(), len(t)),
          'far': lambda: t.max() + rng.uniform(500, 900, 5), 'mixed': lambda: rng.permutation(np.concatenate([t, t[:2] + .1]))}[mode]()
    x0 = tp.copy()
    mu, sd = m.call((lk or g.likes)[i].predict, tp)
    h = hyper(g, i, vals)
    Ks, Kss = ref.kernel(g.kern, h, tp, t), ref.kernel(g.kern, h, tp, tp)
    wm = Ks @ np.linalg.solve(K, r)
    wv = np.diag(Kss - Ks @ np.linalg.solve(K, Ks.T))
    amp = max(1., np.abs(r).max())
    lim = 1e-9 * (1 + 1e-3 * ev[-1] / ev[0]) * amp
    m.state("prediction", (g.kern, mode))
    m.close(mu, wm, "conditional-mean", rtol=1e-8, atol=lim, how=how, kern=g.kern, mode=mode)
    s = np.asarray(sd, float)
    vtol = 1e-9 * (1 + 1e-3 * ev[-1] / ev[0]) * (1 + Kss[0, 0])
    if m.check(s.shape == wv.shape, "conditional-deviation"):
        good = wv > 10 * vtol
        m.check(np.allclose(s[good] ** 2, wv[good], rtol=1e-7, atol=vtol), "conditional-deviation", got=s, want=np.sqrt(np.abs(wv)), kern=g.kern,
                mode=mode)
    m.check(np.array_equal(tp, x0), "arguments-unchanged")


def residuals(m, g, i, how):
    vals = cur(g)
    t, r, K = system(g, i, vals)
    ev = np.linalg.eigvalsh(K)
    if ev[0] < 1e-9 * ev[-1]:
        return
    res = m.call(g.likes[i].residuals)
    h = hyper(g, i, vals)
    want = r - ref.kernel(g.kern, h, t, t) @ np.linalg.solve(K, r)
    lx = np.asarray(g.likes[i].x)
    p = np.argsort(t) if not np.array_equal(lx, t) else np.arange(len(t))
    m.check(np.array_equal(lx, t[p]) and np.array_equal(g.likes[i].y, g.data[i][1][p]) and np.array_equal(g.likes[i].yerr, g.data[i][2][p]),
            "data-stay-aligned")
    m.close(res, want[p], "residuals", rtol=1e-8, atol=1e-8 * (1 + 1e-3 * ev[-1] / ev[0]) * (1 + np.abs(r).max()), how=how, kern=g.kern)
    m.close(m.call(g.likes[i].errorbars), np.sqrt(g.data[i][2][p] ** 2 + vals['jit_' + i] ** 2), "error-bars-aligned", rtol=1e-12)


def u_history(m, rng, i):
    g = setup(rng)
    m.describe(kern=g.kern, insts=g.insts, h=g.h, basis=g.basis, npl=g.npl, n=[len(g.data[k][0]) for k in g.insts])
    post = radvel.posterior.Posterior(g.comp)
    names = post.name_vary_params()
    v = g.mod.vector
    hist = []
    wide = bool(rng.random() < .3)

    def maybe_first():
        # the first thing done with new hyperparameters need not be an evaluation of the likelihood
        if rng.random() < .5:
            k = gen.pick(rng, g.insts)
            (predict(m, g, k, rng, hist) if rng.random() < .6 else residuals(m, g, k, hist))
    for step in range(9 if m.quick else 16):
        op = gen.pick(rng, ['vector', 'dict', 'array', 'zero', 'predict', 'predict', 'residuals', 'again', 'npd'] + ['refuse'] * (g.kern == 'QuasiPer'))
        m.event("op:" + op)
        hist.append(op)
        before = cur(g)
        if op == 'vector':
            for k in [gen.pick(rng, g.pool) for _ in range(3)]:
                v.vector[v.indices[k]][0] = value(rng, k, wide)
            maybe_first()
        elif op == 'dict':
            v.vector_to_dict()
            for k in [gen.pick(rng, g.pool) for _ in range(3)]:
                g.P[k].value = value(rng, k, wide)
            v.dict_to_vector()
            maybe_first()
        elif op == 'array' and names:
            x = [value(rng, k) if k in g.pool else before[k] for k in names]
            vals = dict(before, **dict(zip(names, x)))
            lp = float(m.call(post.logprob_array, np.array(x)))
            m.same(cur(g), vals, "hyperparameters-as-given")
            want, ok = 0, True
            for k in g.insts:
                t, r, K = system(g, k, vals)
                ev = np.linalg.eigvalsh(K)
                ok = ok and ev[0] > 1e-9 * ev[-1]
                want += ref.mvn_loglike(r, K) if ok else 0
            if ok:
                m.close(lp, want, "log-density", rtol=1e-8, atol=1e-5, how=hist)
        elif op == 'refuse':
            # by design: no covariance is made of negative or non-finite hyperparameters
            k, bad = gen.pick(rng, g.h[gen.pick(rng, g.insts)]), gen.pick(rng, [-1., -1e-3, -30., np.nan, np.inf, -np.inf])
            v.vector[v.indices[k]][0] = bad
            try:
                got = post.likelihood.logprob()
            except ValueError:
                got = 'ValueError'
            m.check(got == 'ValueError', "quasi-periodic-refuses-by-design", hyperparameter=k, value=bad, got=got)
            v.vector[v.indices[k]][0] = before[k]
        elif op == 'zero':
            k = gen.pick(rng, g.h[g.insts[0]])
            if g.kern != 'QuasiPer':
                if g.kern == 'Celerite':
                    continue
                k = [x for x in g.h[g.insts[0]] if x.startswith('gp_amp')][0]
            v.vector[v.indices[k]][0] = 0.
            observe(m, g, hist)
            for j in g.insts:
                predict(m, g, j, rng, hist)
                residuals(m, g, j, hist)
            v.vector[v.indices[k]][0] = value(rng, k)
        elif op == 'predict':
            predict(m, g, gen.pick(rng, g.insts), rng, hist)
        elif op == 'residuals':
            residuals(m, g, gen.pick(rng, g.insts), hist)
        elif op == 'npd':
            if g.kern == 'Celerite':
                k = [x for x in g.h[g.insts[0]] if x.startswith('gp_B')][0]
                v.vector[v.indices[k]][0] = -before[k] * 50 - 500
                observe(m, g, hist)
                v.vector[v.indices[k]][0] = before[k]
            elif rng.random() < .3 and g.kern in ('SqExp', 'Per', 'QuasiPer'):     # no finite covariance
                k = [x for x in g.h[g.insts[0]] if x.startswith('gp_amp')][0]
                v.vector[v.indices[k]][0] = 10 ** rng.uniform(155, 300)
                got = m.call(g.likes[g.insts[0]].logprob)
                m.same(float(got), -np.inf, "no-finite-covariance-is-minus-inf", kern=g.kern, amp=v.vector[v.indices[k]][0])
                v.vector[v.indices[k]][0] = before[k]
            else:       # identical times without noise: singular
                k = g.insts[0]
                jit = before['jit_' + k]
                lk = g.likes[k]
                ye = lk.yerr.copy()
                v.vector[v.indices['jit_' + k]][0] = 0.
                lk.yerr[:] = 0.
                try:
                    x = lk.x.copy()
                    got = m.call(lk.logprob)
                    m.check(not np.isnan(got), "singular-gives-a-number", got=got)
                finally:
                    lk.yerr[:] = ye
                    v.vector[v.indices['jit_' + k]][0] = jit
        after = cur(g)
        if op in ('predict', 'residuals', 'again'):
            m.same(after, before, "evaluation-changes-no-hyperparameter", op=op)
        observe(m, g, hist)
    m.state("kernel x instruments", (g.kern, len(g.insts)))
    m.sample(kern=g.kern, ops=hist, hyper=g.h)


def u_order(m, rng, i):
    g = setup(rng)
    m.describe(kern=g.kern, insts=g.insts, h=g.h, n=[len(g.data[k][0]) for k in g.insts])
    a = float(m.call(g.comp.logprob))
    for k in g.insts:
        p = rng.permutation(len(g.data[k][0]))
        l2 = m.call(like, g, k, None, p)
        m.close(float(m.call(l2.logprob)), float(m.call(g.likes[k].logprob)), "order-of-observations-irrelevant", rtol=1e-9, atol=1e-6)
        xp = g.tb + rng.uniform(-50, 90, 7)
        m1, s1 = m.call(g.likes[k].predict, xp)
        m2, s2 = m.call(l2.predict, xp)
        m.close(m2, m1, "order-of-observations-irrelevant", rtol=1e-6, atol=1e-6, what="prediction")
        m.close(s2, s1, "order-of-observations-irrelevant", rtol=1e-5, atol=1e-5, what="deviation")
        q = rng.permutation(7)
        m3, s3 = m.call(l2.predict, xp[q])
        m.close(m3, m2[q], "order-of-predictions-irrelevant", rtol=1e-9, atol=1e-9)
        m.close(s3, s2[q], "order-of-predictions-irrelevant", rtol=1e-6, atol=1e-6)
        observe(m, g, "permuted", dict(g.likes, **{k: l2}))


def u_kernel(m, rng, i):
    """The kernel objects on their own."""
    name = gen.pick(rng, list(ref.KERNELS))
    suf = gen.pick(rng, ['', '_j', '_hires_rj'])
    h = {b + suf: radvel.Parameter(value=value(rng, b)) for b in ref.KERNELS[name]}
    items = list(h.items())
    h = dict(items[j] for j in rng.permutation(len(items)))
    k = m.call(getattr(rgp, name + "Kernel"), h)
    m.describe(kernel=name, order=list(h))
    m.same(k.name, name, "kernel-name")
    hv = {b: h[b + suf].value for b in ref.KERNELS[name]}
    x1, x2 = rng.uniform(-50, 50, int(rng.integers(1, 12))), rng.uniform(-50, 50, int(rng.integers(1, 12)))
    err = rng.uniform(.1, 3, len(x1))
    if name == 'Celerite':
        x1 = np.sort(x1)
        m.call(k.compute_distances, x1, x1)
        for _ in range(2):
            sv = m.call(k.compute_covmatrix, err)
            K = ref.kernel(name, hv, x1, x1) + np.diag(err ** 2)
            m.close(sv.log_determinant(), np.linalg.slogdet(K)[1], "documented-covariance", rtol=1e-9, atol=1e-8, kern=name)
            r = rng.normal(size=len(x1))
            m.close(sv.dot_solve(r), r @ np.linalg.solve(K, r), "documented-covariance", rtol=1e-8, atol=1e-9, kern=name)
    else:
        for _ in range(2):
            m.call(k.compute_distances, x1, x2)
            m.close(m.call(k.compute_covmatrix, 0.), ref.kernel(name, hv, x1, x2), "documented-covariance", rtol=1e-10, atol=1e-12, kern=name)
            m.call(k.compute_distances, x1, x1)
            m.close(m.call(k.compute_covmatrix, err), ref.kernel(name, hv, x1, x1) + np.diag(err ** 2), "documented-covariance", rtol=1e-10,
                    atol=1e-12, kern=name)
            m.close(k.covmatrix, ref.kernel(name, hv, x1, x1) + np.diag(err ** 2), "stored-covariance", rtol=1e-10, atol=1e-12)
            b = gen.pick(rng, list(h))
            h[b].value = value(rng, b)
            hv[b[:len(b) - len(suf)] if suf else b] = h[b].value
    bad = dict(list(h.items())[:-1])
    m.raises(getattr(rgp, name + "Kernel"), bad, _mon="incomplete-hyperparameters-refused")


UNITS = [("history", u_history, 200, 3500), ("order", u_order, 60, 1000), ("kernel", u_kernel, 60, 800)]
REQUIRED = ["log-density", "composite-is-the-sum", "conditional-mean", "conditional-deviation", "residuals", "not-positive-definite-is-minus-inf",
            "order-of-observations-irrelevant", "documented-covariance", "no-finite-covariance-is-minus-inf", "hyperparameters-as-given", "evaluation-changes-no-hyperparameter", "quasi-periodic-refuses-by-design"]
