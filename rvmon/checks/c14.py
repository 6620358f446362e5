"""C14: MCMC runs recorded step by step in every process; the returned chain is compared with that record and with the posterior."""
import collections, copy, os, sys
import numpy as np
import radvel
from radvel import prior as rp
from .. import ref, gen
from ..chains import Recorder, silent, simulate
from ..core import Skip

M = sys.modules['radvel.mcmc']
ANCHORS = ["mcmc.py", "posterior.py"]
RULE = ("Runs over random posteriors (0-2 planets, every basis, 1-3 instruments, trends, marginalised offsets, GPs, bounded and peaked priors) with random "
        "ensembles, walkers, check intervals, step counts, thinning, burn-in thresholds, serially and in worker processes; an event log written by "
        "every process holds each step taken.  Gaussian and truncated posteriors with known moments.")
ASSUMPTIONS = ["emcee's stored steps are the steps completed", "a walker started outside the support may stay there until a proposal is accepted"]


def posterior(rng):
    gp = gen.pick(rng, [None, None, None, None, 'SqExp', 'QuasiPer'])
    s = gen.system(radvel, rng, npl=int(gen.pick(rng, [0, 1, 1, 2])), gp=gp, emax=.4, nobs=int(rng.integers(5, 9)), vary=(0,), linear=False if gp else None,
                   insts=['j'] if gp else gen.pick(rng, [['j'], ['k', 'j'], ['hires_rj', 'apf', 'k']]), decorr=gen.pick(rng, [[], [], ['airmass']]) if not gp else [])
    P = s.P
    for k in P:
        if not P[k].linear:
            P[k].vary = bool(rng.random() < .5)
    names = [k for k in P if not P[k].linear]
    if not any(P[k].vary for k in P):
        P[gen.pick(rng, [k for k in names if not k.startswith('gp')])].vary = True
    free = [k for k in P if P[k].vary and not P[k].linear]
    for k in free[6:]:
        P[k].vary = False
    tight = rng.random() < .6
    for k in free[:6]:
        if P[k].value == 0 and k in ('k1', 'k2'):
            P[k].value = 1.
        if k in ('per1', 'per2') and P[k].value == 1.:
            P[k].vary = False
        P[k].mcmcscale = float(abs(P[k].value) * 1e-4 + 1e-5) if tight else 0
    s.mod.vector.dict_to_vector()
    for lk in s.likes:
        lk.list_vary_params()
    post = radvel.posterior.Posterior(s.like)
    names = post.name_vary_params()
    if not len(names):
        raise Skip("nothing to vary")
    v = gen.values(P)
    pri = []
    for k in names:
        if k.startswith('gp'):
            pri.append(rp.HardBounds(k, v[k] / 10, v[k] * 10))
        elif k.startswith('jit'):
            pri.append(rp.HardBounds(k, -1., 50.) if rng.random() < .5 else rp.Jeffreys(k, 1e-4, 1e4))
        elif rng.random() < .3:
            w = abs(v[k]) * .2 + .1
            pri.append(gen.pick(rng, [lambda: rp.Gaussian(k, v[k], w), lambda: rp.HardBounds(k, v[k] - w, v[k] + w)])())
    if s.npl and rng.random() < .7:
        pri.append(rp.EccentricityPrior(s.npl))
    if s.npl and rng.random() < .4:
        pri.append(rp.PositiveKPrior(s.npl))
    pri = [p for p in pri]
    post.priors = pri
    np.seterr(all='ignore')
    post.vector.dict_to_vector()
    if not np.isfinite(post.logprob()):
        raise Skip("start excluded")
    return s, post


def options(rng, quick, ndim):
    ci = int(rng.integers(2, 14))
    o = dict(nwalkers=int(rng.integers(max(2, 2 * ndim - 3), 2 * ndim + 8)), ensembles=int(gen.pick(rng, [1, 2, 2, 3, 4])), checkinterval=ci,
             nrun=int(gen.pick(rng, [ci, 2 * ci, 3 * ci + 1, 4 * ci, 5 * ci - 1, max(2, ci - 1)])), minAfactor=float(gen.pick(rng, [.1, 40.])),
             maxArchange=float(gen.pick(rng, [.03, 100.])), burnAfactor=float(gen.pick(rng, [.1, 25., 1e9])), burnGR=float(gen.pick(rng, [1., 1.03, 1.5, 100.])),
             maxGR=float(gen.pick(rng, [1.01, 1.5, 1e3])), minTz=int(gen.pick(rng, [0, 10, 1000])), minsteps=int(gen.pick(rng, [0, ci, 2 * ci, 1000])),
             minpercent=float(gen.pick(rng, [0, 5, 50, 101])), thin=int(gen.pick(rng, [1, 1, 1, 2, 3, 7, 10, 13, 50])), serial=bool(rng.random() < .6), headless=True)
    return o


def state_of(post):
    return (gen.snapshot(post.params), np.array(post.vector.vector)[:, [0, 1, 3]].tolist(), list(post.name_vary_params()), len(post.priors),
            [k for k in post.params])


def rowkey(row):
    return np.ascontiguousarray(row, dtype=float).tobytes()


def expected(H, o, nwalkers):
    steps = [np.array([c for seg in h['segments'] for c, l in seg]).reshape(-1, *np.shape(h['segments'][0][0][0])) for h in H]
    lnp = [np.array([l for seg in h['segments'] for c, l in seg]) for h in H]
    return steps, lnp


def common_moves(a, b):
    """How much oftener than by chance the same walkers of two ensembles move in the same step, in standard deviations."""
    da, db = [np.any(np.diff(x, axis=0) != 0, axis=2).astype(float) for x in (a, b)]
    if da.size < 150:
        return None
    da, db = da - da.mean(axis=1, keepdims=True), db - db.mean(axis=1, keepdims=True)
    s = np.array([np.sum(da * np.roll(db, q, axis=1)) for q in range(da.shape[1])])
    sd = max(np.std(s[1:], ddof=1), np.sqrt(np.sum(da ** 2) * np.sum(db ** 2) / da.size))
    return float(s[0] / sd) if sd > 0 else None


def u_run(m, rng, i):
    s, post = posterior(rng)
    names = list(post.name_vary_params())
    ndim = len(names)
    o = options(rng, m.quick, ndim)
    m.describe(free=names, opts=o, gp=s.gp, basis=s.basis, npl=s.npl, insts=s.insts, priors=[repr(p)[:60] for p in post.priors])
    m.state("run", (o['serial'], o['ensembles'], o['thin'] > 1))
    m.state("basis", s.basis)
    before = state_of(post)
    lp0 = float(post.logprob())
    path = os.path.join(m.scratch, "ev%d" % i)
    with Recorder(path) as R, silent():
        try:
            df = m.call(M.mcmc, post, **o)
        finally:
            H = R.history()
            os.unlink(path)
    m.same(state_of(post), before, "posterior-left-as-it-was")
    m.close(float(post.logprob()), lp0, "posterior-left-as-it-was", rtol=1e-12, what="logprob")
    m.same(state_of(post), before, "posterior-left-as-it-was", what="after evaluation")
    m.check(df is not None, "chain-returned")
    m.same(list(df.columns), names + ['lnprobability'], "one-column-per-free-parameter")
    nw = max(o['nwalkers'], 2 * ndim)
    if not m.check(len(H) == o['ensembles'] and all(len(h['segments'][0]) for h in H), "steps-recorded", got=len(H)):
        return
    m.state("processes", len(set(p for h in H for p in h['pids'])))
    steps, lnps = expected(H, o, nw)
    m.event("steps", sum(len(x) * x.shape[1] for x in steps))
    m.same([x.shape[1:] for x in steps], [(nw, ndim)] * o['ensembles'], "walkers-as-requested")
    # histories: each call continues where the ensemble stands; ensembles are different runs
    flat = []
    for e, h in enumerate(H):
        prev = None
        seg_start = {}
        for g, seg in enumerate(h['segments']):
            for c, l in seg:
                flat.append((e, c))
        for g, idx, c in h['begins']:
            done = [q for gg, seg in enumerate(h['segments'][:g]) for q in seg] + h['segments'][g][:idx]
            if done:
                m.check(np.array_equal(done[-1][0], c), "ensemble-continues-where-it-stands", ensemble=e, segment=g, index=idx)
    for a in range(len(steps)):
        for b in range(a):
            k = min(len(steps[a]), len(steps[b]))
            m.check(not np.any(np.all(steps[a][:k] == steps[b][:k], axis=(1, 2))), "ensembles-are-different-runs")
            z = common_moves(steps[a][:k], steps[b][:k])
            if z is not None:
                m.check(abs(z) < 8, "ensembles-draw-independently", z=z, ensembles=(a, b))
    # what should be in the chain, by the rules of burn-in and stopping
    try:
        sim, end = simulate(steps, o, nw)
    except Skip as ex:
        m.event("decisions not judged: %s" % ex)
        sim = end = None
    if end is not None:
        m.same([len(x) for x in steps], [end['steps']] * len(steps), "all-steps-of-the-run-taken", opts=o)
        nkeep = len(end['hist'][0])
    else:
        # without the decisions: the chain must be a suffix that starts at a check
        nkeep = len(H[0]['segments'][-1]) or len(H[0]['segments'][-2])
    keep = collections.Counter()
    for e in range(len(steps)):
        for c, l in zip(steps[e][len(steps[e]) - nkeep:], lnps[e][len(lnps[e]) - nkeep:]):
            for w in range(nw):
                keep[(rowkey(c[w]), rowkey(l[w]))] += 1
    total = nkeep * nw * len(steps)
    got = collections.Counter((rowkey(r[:-1]), rowkey(r[-1])) for r in df[names + ['lnprobability']].values.astype(float))
    extra = got - keep
    m.check(not extra, "only-rows-of-completed-steps", n=sum(extra.values()), first=[np.frombuffer(k[0]).tolist() for k in list(extra)[:2]], want=total, got=len(df))
    if o['thin'] == 1:
        missing = keep - got
        m.check(not missing, "no-row-lost-or-doubled", n=sum(missing.values()), want=total, got=len(df))
    m.same(len(df), -(-total // o['thin']), "thinning-keeps-every-nth", thin=o['thin'], total=total)
    # every row carries the posterior's value at its own parameters, set by name
    V = df[names].values.astype(float)
    L = df['lnprobability'].values.astype(float)
    inside0 = all(np.all(np.isfinite([post2_logprob(post, names, x) for x in H[e]['begins'][0][2]])) for e in range(len(H)))
    if inside0:
        m.check(np.all(np.isfinite(L)), "inside-the-support")
    idx = rng.permutation(len(df))[:60 if m.quick else 200]
    for j in idx:
        w = post2_logprob(post, names, V[j])
        m.close(L[j], w, "row-carries-its-own-log-probability", rtol=1e-8, atol=1e-8, row=V[j])
    if not s.gp:
        j = int(rng.integers(len(df)))
        vals = dict(gen.values(post.params), **dict(zip(names, V[j])))
        orb = [ref.from_basis({q: vals[q + str(n)] for q in s.basis.split()}, s.basis) for n in range(1, s.npl + 1)]
        if np.isfinite(L[j]) and all(0 <= p[2] < .95 and p[0] > 0 for p in orb):
            Q = copy.deepcopy(post.priors)
            P2 = copy.deepcopy(post.params)
            for k in names:
                P2[k].value = V[j][names.index(k)]
            pv = sum(float(p(P2, radvel.model.Vector(P2))) for p in Q)
            want = gen.loglike(s, vals, gen.varies(post.params)) + pv
            m.close(L[j], want, "row-carries-the-log-probability-of-the-definition", rtol=1e-6, atol=1e-5, row=V[j])
    for k in names:
        m.state("parameter kinds", k.rstrip('0123456789').split('_')[0])
    m.sample(rows=len(df), first=df.iloc[0].to_dict())


def post2_logprob(post, names, x):
    q = copy.deepcopy(post)
    for k, v in zip(names, x):
        q.params[k].value = float(v)
    q.vector.dict_to_vector()
    q.list_vary_params()
    q.likelihood.list_vary_params()
    return float(q.logprob())


def u_moments(m, rng, i):
    """Gaussian posteriors (parameters the model is linear in), optionally truncated in one parameter."""
    s = gen.system(radvel, rng, npl=1, basis=gen.pick(rng, ['per tc e w k', 'per tc secosw sesinw k', 'per tc se w k', 'logper tc secosw sesinw k', 'per tc ecosw esinw k']), emax=.4,
                   nobs=int(rng.integers(12, 20)), vary=(0,), linear=False, trend=gen.pick(rng, ['none', 'dvdt']), insts=['j'], decorr=[])
    P = s.P
    free = ['k1', 'gamma_j'] + (['dvdt'] if 'dvdt' in P and rng.random() < .6 else [])
    for k in free:
        P[k].vary = True
    t, y, err, dv = s.data['j']
    vals = gen.values(P)
    base = dict(vals, **{k: 0. for k in free})
    mean = lambda v: ref.model_rv(v, s.basis, 1, t, s.time_base)[0] + v['gamma_j']
    m0 = mean(base)
    D = np.array([mean(dict(base, **{k: 1.})) - m0 for k in free])
    w = 1 / (err ** 2 + vals['jit_j'] ** 2)
    F, b = (D * w) @ D.T, (D * w) @ (y - m0)
    s.mod.vector.dict_to_vector()
    for lk in s.likes:
        lk.list_vary_params()
    post = radvel.posterior.Posterior(s.like)
    kind = gen.pick(rng, ['flat', 'gauss', 'bound'])
    C = np.linalg.inv(F)
    mu = C @ b
    sd = np.sqrt(np.diag(C))
    lo = None
    if kind == 'gauss':
        j = int(rng.integers(len(free)))
        m_, s_ = mu[j] + 1.5 * sd[j], sd[j] * rng.uniform(.5, 2)
        post.priors.append(rp.Gaussian(free[j], m_, s_))
        F[j, j] += 1 / s_ ** 2
        b[j] += m_ / s_ ** 2
        C = np.linalg.inv(F)
        mu, sd = C @ b, np.sqrt(np.diag(C))
    names = list(post.name_vary_params())
    order = [free.index(k) for k in names]
    mu, sd, C = mu[order], sd[order], C[np.ix_(order, order)]
    want_mu, want_sd = mu.copy(), sd.copy()
    if kind == 'bound':
        j = int(rng.integers(len(names)))
        z0 = rng.uniform(-1, .3)
        lo = mu[j] + z0 * sd[j]
        post.priors.append(rp.HardBounds(names[j], lo, mu[j] + 50 * sd[j]))
        from scipy.stats import truncnorm
        tm, tv = truncnorm.stats(z0, 50, moments='mv')
        beta = C[:, j] / sd[j]
        want_mu = mu + beta * float(tm)
        want_sd = np.sqrt(sd ** 2 - beta ** 2 * (1 - float(tv)))
    for q, k in enumerate(names):
        P[k].value, P[k].mcmcscale = float(want_mu[q]), float(.7 * sd[q])
    s.mod.vector.dict_to_vector()
    nrun = 700 if m.quick else 1500
    serial = bool(rng.random() < .5)
    m.describe(free=names, kind=kind, serial=serial)
    path = os.path.join(m.scratch, "mo%d" % i)
    with Recorder(path) as R, silent():
        df = m.call(M.mcmc, post, nwalkers=12, nrun=nrun, ensembles=4, checkinterval=nrun // 4, burnGR=0., burnAfactor=1e9, minTz=1e9, headless=True, serial=serial)
        H = R.history()
    os.unlink(path)
    m.same(len(df), nrun * 12 * 4, "no-row-lost-or-doubled")
    # blocks of the recorded run, the first part left out
    blk = []
    for h in H:
        x = np.array([c for seg in h['segments'] for c, l in seg])[100:]
        blk += [q for q in np.array_split(x, 8)]
    for q, k in enumerate(names):
        bm = np.array([x[:, :, q].mean() for x in blk])
        se = max(bm.std(ddof=1) / np.sqrt(len(bm)), sd[q] * .003)
        m.check(abs(bm.mean() - want_mu[q]) < 8 * se, "moments-agree-with-the-known-posterior", name=k, got=bm.mean(), want=want_mu[q], se=se, sd=sd[q], kind=kind)
        bv = np.array([((x[:, :, q] - want_mu[q]) ** 2).mean() for x in blk])
        sv = max(bv.std(ddof=1) / np.sqrt(len(bv)), want_sd[q] ** 2 * .01)
        m.check(abs(bv.mean() - want_sd[q] ** 2) < 8 * sv, "moments-agree-with-the-known-posterior", name=k, got=np.sqrt(bv.mean()), want=want_sd[q], kind=kind, what='sd')
        m.check(abs(df[k].mean() - want_mu[q]) < 8 * se + .1 * sd[q], "moments-agree-with-the-known-posterior", name=k, what='returned chain')
        if lo is not None and names[j] == k:
            m.check(df[k].min() >= lo, "inside-the-support", name=k)
    m.event("steps", len(df))
    m.sample(names=names, got=[float(df[k].mean()) for k in names], want=want_mu)


def u_same(m, rng, i):
    """The same random state: serial, parallel and thinned runs are views of one chain."""
    s, post = posterior(rng)
    o = options(rng, m.quick, len(post.name_vary_params()))
    seed = int(rng.integers(2 ** 31))
    thin = int(gen.pick(rng, [2, 3, 5, 7, 10, 11, 25, 100, 10**5]))
    m.describe(free=list(post.name_vary_params()), opts=o, thin=thin)
    out = []
    for kw in ({'serial': True, 'thin': 1}, {'serial': True, 'thin': thin}, {'serial': False, 'thin': 1}):
        np.random.seed(seed)
        p = copy.deepcopy(post)
        with silent():
            out.append(m.call(M.mcmc, p, **dict(o, **kw)).values.astype(float))
    m.check(np.array_equal(out[0][::thin], out[1]), "thinning-keeps-every-nth", shapes=[x.shape for x in out], thin=thin)
    a, b = [x[np.lexsort(x.T)] for x in (out[0], out[2])]
    m.close(b, a, "parallel-run-equals-serial-run", rtol=1e-12)


UNITS = [("same", u_same, 24, 300), ("run", u_run, 90, 1500), ("moments", u_moments, 6, 60)]
REQUIRED = ["parallel-run-equals-serial-run", "posterior-left-as-it-was", "one-column-per-free-parameter", "no-row-lost-or-doubled", "only-rows-of-completed-steps", "thinning-keeps-every-nth",
            "row-carries-its-own-log-probability", "row-carries-the-log-probability-of-the-definition", "inside-the-support", "all-steps-of-the-run-taken",
            "ensemble-continues-where-it-stands", "ensembles-are-different-runs", "ensembles-draw-independently", "moments-agree-with-the-known-posterior"]
