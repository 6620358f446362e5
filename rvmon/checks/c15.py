"""C15: convergence statistics against their definitions, and runs against a simulation of the burn-in and stopping rules on the recorded steps."""
import collections, os, sys
import numpy as np
import radvel
from .. import gen
from ..chains import Recorder, silent, simulate, statistics, integrated_time, less, Near
from ..core import Skip

M = sys.modules['radvel.mcmc']
ANCHORS = ["mcmc.py"]
RULE = ("Random chains (1-6 ensembles, 2-24 walkers, 5-400 steps, 1-6 parameters; correlated, drifting, offset, bimodal, heavy-tailed, differently scaled) "
        "with thresholds around their own statistics, and shifted, rescaled and reordered copies; runs on fast targets with thresholds chosen so that burn-in "
        "and convergence happen at all possible checks, their steps recorded in every process.")
ASSUMPTIONS = ["Gelman-Rubin and Tz: Ford (2006) with each ensemble's walkers joined into one chain; a single ensemble has no Tz criterion",
               "autocorrelation time: Sokal's window c=5 on the walkers' mean, over the joined ensembles; the factor is their length in time units"]


def chains(rng):
    ens, nw, n, nd = int(gen.pick(rng, [1, 2, 2, 3, 4, 6])), int(rng.integers(2, 25)), int(gen.pick(rng, [5, 8, 20, 50, 120, 400])), int(rng.integers(1, 7))
    out = np.empty((ens, nd, nw, n))
    for d in range(nd):
        kind = gen.pick(rng, ['white', 'ar', 'ar', 'walk', 'offset', 'drift', 'heavy', 'sticky'])
        x = rng.normal(size=(ens, nw, n))
        if kind == 'ar':
            a = rng.uniform(.3, .98)
            for k in range(1, n):
                x[:, :, k] = a * x[:, :, k - 1] + np.sqrt(1 - a * a) * x[:, :, k]
        elif kind == 'walk':
            x = np.cumsum(x, axis=2)
        elif kind == 'offset':
            x = x + rng.normal(size=(ens, 1, 1)) * gen.pick(rng, [.1, 1., 10.])
        elif kind == 'drift':
            x = x + np.arange(n) * rng.uniform(.001, .1)
        elif kind == 'heavy':
            x = rng.standard_t(1.5, size=x.shape)
        elif kind == 'sticky':
            hold = rng.random(x.shape) < .7
            for k in range(1, n):
                x[:, :, k] = np.where(hold[:, :, k], x[:, :, k - 1], x[:, :, k])
        out[:, d] = (x + gen.pick(rng, [0., 0., 5., -300.])) * 10 ** rng.uniform(-6, 6)
    return [np.array(c) for c in out]


def calc(m, ch, o, old):
    with np.errstate(all='ignore'):
        keep = [c.copy() for c in ch]
        ch2 = list(ch)
        r = m.call(M.convergence_calculate, ch2, oldautocorrelation=old, minAfactor=o['minAfactor'], maxArchange=o['maxArchange'], minTz=o['minTz'], maxGR=o['maxGR'])
        m.check(len(ch2) == len(keep) and all(np.array_equal(a, b) for a, b in zip(ch2, keep)), "chains-not-changed")
    return r


def u_stats(m, rng, i):
    ch = chains(rng)
    ens, nd, nw, n = len(ch), *ch[0].shape
    m.describe(ensembles=ens, ndim=nd, walkers=nw, steps=n, head=[float(c.ravel()[0]) for c in ch])
    m.state("shape", (ens, nw > 8, n))
    gr, tz, tau, af = statistics([c.transpose(2, 1, 0) for c in ch])
    if np.any(np.isnan(tau)):
        raise Skip("walker never moved")
    if np.any(np.abs(tau) < 1e-6):
        raise Skip("autocorrelation time vanishes")
    old = gen.pick(rng, [0., tau * rng.uniform(.5, 1.5, nd), tau * (1 + rng.uniform(-.02, .02, nd))])
    with np.errstate(all='ignore'):
        ar = np.abs(tau - old) / old

    def around(v, kind):
        v = v if np.isfinite(v) else 1.
        return float(v * gen.pick(rng, [.3, .9, .999, 1.001, 1.1, 3.]))
    # thresholds near the worst parameter's value, so that each criterion decides in some cases
    o = {'minAfactor': around(af.min(), 0) if rng.random() < .5 else 1e-9, 'maxArchange': around(ar.max(), 0) if rng.random() < .5 else 1e12,
         'maxGR': around(gr.max(), 0) if rng.random() < .5 else 1e12, 'minTz': around(tz.min(), 0) if tz is not None and rng.random() < .5 else -1e9}
    if rng.random() < .2 and tz is not None and ens > 1:
        o['minTz'] = ens * nw * n * gen.pick(rng, [.99, 1.01])
    got = calc(m, ch, o, old)
    mixed, gaf, gar, gtau, ggr, gtz = got
    m.close(ggr, gr, "gelman-rubin-as-defined", rtol=2. / (nw * n) + 1e-6)
    if ens > 1:
        m.close(gtz, tz, "tz-as-defined", rtol=2. / (nw * n) + 1e-6)
    m.close(gtau, tau, "autocorrelation-time-as-defined", rtol=1e-5)
    m.close(gaf, af, "autocorrelation-factor-as-defined", rtol=1e-5)
    if np.all(np.isfinite(ar)):
        m.close(gar, ar, "autocorrelation-change-as-defined", rtol=1e-4, atol=1e-5)
    else:
        m.check(not np.any(np.asarray(gar) < 1e300), "autocorrelation-change-as-defined", got=gar)
    try:
        # decided on the reported statistics (which were just compared with the definitions)
        want = bool((ens == 1 or less(o['minTz'], np.min(gtz))) and less(np.max(ggr), o['maxGR']) and less(o['minAfactor'], np.min(gaf)) and
                    less(np.max(gar), o['maxArchange']))
        m.same(bool(mixed), want, "converged-exactly-when-every-threshold-is-met", opts=o, gr=ggr, tz=gtz, af=gaf, ar=gar)
        m.state("verdict", want)
        m.event("converged" if want else "not converged")
    except Near:
        pass
    # invariances
    perm, scale, shift = rng.permutation(nd), 10 ** rng.uniform(-2, 2, nd) * rng.choice([-1, 1], nd), rng.normal(size=nd) * np.array([np.std(c) for c in np.concatenate(ch, axis=2)])
    ch2 = [(c * scale[:, None, None] + (scale * shift)[:, None, None])[perm] for c in ch]
    r2 = calc(m, ch2, o, old if np.isscalar(old) else old[perm])
    tol = dict(rtol=1e-4)
    m.close(r2[4], np.asarray(ggr)[perm], "unchanged-by-shift-scale-and-order-of-parameters", **tol)
    if ens > 1:
        m.close(r2[5], np.asarray(gtz)[perm], "unchanged-by-shift-scale-and-order-of-parameters", **tol)
    eo = rng.permutation(ens)
    r3 = calc(m, [ch[k][:, rng.permutation(nw)] for k in eo], o, old)
    m.close(r3[4], ggr, "unchanged-by-order-of-chains", rtol=1e-4)
    if ens > 1:
        m.close(r3[5], gtz, "unchanged-by-order-of-chains", rtol=1e-4)
    m.sample(gr=ggr, tz=gtz, tau=gtau, mixed=bool(mixed))


class Fast(radvel.posterior.Posterior):
    """A posterior whose evaluation is a cheap analytic target."""
    kind, bonus = 'gauss', 0.

    def logprob_array(self, x):
        x = np.asarray(x, dtype=float)
        self.likelihood.set_vary_params(x)
        if self.kind == 'gauss':
            return float(-.5 * np.sum(x * x))
        if self.kind == 'banana':
            return float(-.5 * (x[0] ** 2 + (x[-1] - x[0] ** 2) ** 2) - .5 * np.sum(x[1:-1] ** 2))
        if self.kind == 'box':
            return float(0. if np.all(np.abs(x) < 1) else -np.inf)
        return float(np.logaddexp(-.5 * np.sum((x - 4) ** 2), -.5 * np.sum((x + 4) ** 2)))


def fast(rng, nd=None):
    names = ['per1', 'tc1', 'e1', 'w1', 'k1'][:nd or int(rng.integers(1, 6))]
    P = radvel.Parameters(1, basis='per tc e w k')
    for k in ('per1', 'tc1', 'e1', 'w1', 'k1'):
        P[k] = radvel.Parameter(value=float(rng.uniform(-.3, .3)), vary=k in names, mcmcscale=float(gen.pick(rng, [.01, .3])))
    mod = radvel.RVModel(P)
    like = radvel.likelihood.RVLikelihood(mod, np.arange(3.), np.zeros(3), np.ones(3))
    like.params['gamma'] = radvel.Parameter(value=0., vary=False)
    like.params['jit'] = radvel.Parameter(value=0., vary=False)
    like.vector.dict_to_vector()
    like.list_vary_params()
    post = Fast(like)
    post.kind = gen.pick(rng, ['gauss', 'gauss', 'banana', 'box', 'two'])
    return post


def options(rng, ndim):
    ci = int(gen.pick(rng, [1, 2, 5, 8, 10, 20, 25]))
    nch = int(rng.integers(2, 12))
    nrun = ci * nch + int(gen.pick(rng, [0, 0, -1, 1])) * (ci > 1)
    lo = rng.random() < .75
    o = dict(nwalkers=int(rng.integers(max(2, 2 * ndim - 3), 2 * ndim + 8)), ensembles=int(gen.pick(rng, [1, 2, 2, 3, 4])), checkinterval=ci, nrun=nrun,
                minAfactor=float(gen.pick(rng, [.1, 5., 15., 40.] if lo else [40.])), maxArchange=float(gen.pick(rng, [.1, .5, 5., 1e9] if lo else [.03])),
                burnAfactor=float(gen.pick(rng, [1., 5., 20., 1e9])), burnGR=float(gen.pick(rng, [1., 1.03, 1.1, 1.5])),
                maxGR=float(gen.pick(rng, [1.01, 1.05, 1.2, 5.])), minTz=int(gen.pick(rng, [0, 10, 100, 1000])),
                minsteps=int(gen.pick(rng, [0, ci, 3 * ci, nrun, 10 ** 6])), minpercent=float(gen.pick(rng, [0, 5, 30, 60, 100, 101])),
                thin=1, serial=bool(rng.random() < .8), headless=True)
    if rng.random() < .5:      # within reach of a short run
        o.update(minAfactor=float(gen.pick(rng, [.1, 1., 3.])), maxArchange=float(gen.pick(rng, [.3, 1., 5., 1e9])), maxGR=float(gen.pick(rng, [1.1, 1.3, 5.])),
                 minTz=int(gen.pick(rng, [0, 2, 10])), burnGR=float(gen.pick(rng, [1.1, 1.5, 3.])))
        if rng.random() < .3:
            o['burnGR'], o['burnAfactor'] = 1., 1e9        # no burn-in
    if ci < 5:        # a handful of steps: statistics exist but mean nothing numerically
        o['minsteps'], o['minpercent'] = max(6, o['minsteps']), 101.
    return o


def u_run(m, rng, i):
    post = fast(rng)
    names = list(post.name_vary_params())
    o = options(rng, len(names))
    m.describe(opts=o, ndim=len(names), kind=post.kind)
    path = os.path.join(m.scratch, "ev%d" % i)
    seen = []
    orig = getattr(M, 'convergence_check', None)
    if orig is not None:
        def check(*a, **k):
            r = orig(*a, **k)
            sv = M.statevars
            seen.append({k: getattr(sv, k) for k in ('ncomplete', 'nburn', 'minafactor', 'maxarchange', 'maxgr', 'mintz', 'ismixed', 'mixcount')})
            return r
        M.convergence_check = check
    try:
        with Recorder(path) as R, silent():
            df = m.call(M.mcmc, post, **o)
            H = R.history()
    finally:
        if orig is not None:
            M.convergence_check = orig
    os.unlink(path)
    nw = max(o['nwalkers'], 2 * len(names))
    steps = [np.array([c for seg in h['segments'] for c, l in seg]) for h in H]
    if not m.check(len(steps) == o['ensembles'] and all(x.ndim == 3 for x in steps), "steps-recorded"):
        return
    m.event("steps", sum(len(x) for x in steps))
    sim, end = simulate(steps, o, nw)
    sv = M.statevars
    if not m.check(end is not None, "run-does-not-stop-before-its-rule-says", nsteps=[len(x) for x in steps], checks=len(sim), opts=o,
                   last=[{k: v for k, v in s.items() if k not in ('hist',)} for s in sim[-2:]]):
        return
    m.same([len(x) for x in steps], [end['steps']] * len(steps), "run-stops-exactly-by-its-rule", opts=o,
           checks=[{k: v for k, v in s.items() if k not in ('hist', 'autos')} for s in sim[-3:]])
    last = sim[-1]
    m.same((int(sv.ncomplete), int(sv.nburn)), (last['ncomplete'], end['nburn']), "steps-and-burn-in-counted", opts=o)
    m.same(bool(sv.burn_complete), end['burn'], "burn-in-ends-by-its-criterion", opts=o)
    for k in ('minafactor', 'maxarchange', 'maxgr', 'mintz'):
        m.close(getattr(sv, k), last[k], "reported-statistics-as-defined", rtol=1e-5 if k != 'maxarchange' else 1e-3, atol=1e-6, name=k, opts=o)
    got = [(a, b, c, d) for a, b, c, d in zip(sv.autosamples, sv.automean, sv.automin, sv.automax)]
    m.check(len(sv.autosamples) == len(sv.automean) == len(sv.automin) == len(sv.automax) == len(sv.factor), "history-one-entry-per-check")
    m.close(np.array(got).reshape(-1, 4), np.array(last['autos']).reshape(-1, 4), "history-one-entry-per-check", rtol=1e-5)
    m.check(all(float(f) == o['minAfactor'] for f in sv.factor), "history-one-entry-per-check", factor=sv.factor)
    if len(seen) == len(sim):
        for s, g in zip(sim, seen):
            m.same((int(g['ncomplete']), int(g['nburn']), bool(g['ismixed']), int(g['mixcount'])), (s['ncomplete'], s['nburn'], s['mixed'], s['mixcount']),
                   "each-check-decides-by-the-definitions", opts=o)
            for k in ('minafactor', 'maxarchange', 'maxgr', 'mintz'):
                m.close(g[k], s[k], "each-check-decides-by-the-definitions", rtol=1e-5 if k != 'maxarchange' else 1e-3, atol=1e-6, name=k)
        m.event("checks observed", len(seen))
    # the result: everything after the burn-in that was discarded, nothing else
    keep = np.concatenate([h.reshape(-1, len(names)) for h in end['hist']])
    got = df[names].values.astype(float)
    m.same(len(got), len(keep), "discarded-steps-never-in-the-result", opts=o, discard=[k for k, s in enumerate(sim) if s.get('discard')], nchecks=len(sim))
    a, b = collections.Counter(map(bytes, keep)), collections.Counter(map(bytes, np.ascontiguousarray(got)))
    m.check(a == b, "discarded-steps-never-in-the-result", opts=o)
    nd = [k for k, s in enumerate(sim) if s.get('discard')]
    m.state("burn-in ended at check", nd[0] if nd else None)
    m.state("stopped at check", (len(sim) - 1) if end['stopped'] else None)
    m.event("stopped early" if end['steps'] < o['nrun'] else "ran to the limit")
    if nd:
        m.event("burn-in discarded")
    m.sample(checks=len(sim), stopped=end['stopped'], discard=nd)


UNITS = [("stats", u_stats, 300, 6000), ("run", u_run, 320, 5000)]
REQUIRED = ["gelman-rubin-as-defined", "tz-as-defined", "autocorrelation-time-as-defined", "autocorrelation-factor-as-defined", "autocorrelation-change-as-defined",
            "converged-exactly-when-every-threshold-is-met", "unchanged-by-shift-scale-and-order-of-parameters", "unchanged-by-order-of-chains",
            "run-stops-exactly-by-its-rule", "burn-in-ends-by-its-criterion", "discarded-steps-never-in-the-result", "reported-statistics-as-defined",
            "history-one-entry-per-check"]
