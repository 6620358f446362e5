"""C16: nested-sampling runs whose every likelihood evaluation is recorded, on targets with analytic evidence; MultiNest behind a stand-in of its interface."""
import copy, ctypes, hashlib, logging, os, sys, types, warnings
import numpy as np
import radvel, radvel.nested_sampling as ns
from radvel import prior as rp
from scipy import stats
from .. import ref, gen
from ..chains import silent
from ..core import Skip

ANCHORS = ["nested_sampling.py", "posterior.py"]
RULE = ("Every backend installed (ultranest, dynesty static/dynamic, nautilus) and a stand-in that implements MultiNest's interface by importance sampling, over "
        "Gaussian likelihoods (parameters the model is linear in) and nonlinear ones with random proper priors, constraint priors, parameter orders and output "
        "directories (none, new, nested, existing, with results, with an unfinished run); repeated calls with the same option dictionaries.")
ASSUMPTIONS = ["statistical agreement: 5 of the sampler's own standard errors plus 0.25 in ln Z; half a standard deviation in means", "pymultinest is not installed; "
               "its documented interface is replaced"]
NAMES = ['dynesty-static', 'dynesty-dynamic', 'ultranest', 'nautilus', 'multinest']
JOBS = 8
LOG = []


class Rec(radvel.posterior.Posterior):
    """Records every likelihood evaluation a sampler makes."""
    def likelihood_ns_array(self, x):
        r = super().likelihood_ns_array(x)
        LOG.append((np.array([float(v) for v in x]), r))
        return r


# ------------------------------------------------------------------ MultiNest's interface
class Fake:
    calls = []

    @staticmethod
    def install():
        mod = types.ModuleType('pymultinest')
        mod.run, mod.Analyzer = Fake.run, Fake.Analyzer
        sys.modules['pymultinest'] = mod

    @staticmethod
    def run(LogLikelihood, Prior, n_dims, n_params=None, outputfiles_basename='chains/1-', resume=True, n_live_points=400, seed=-1, **kw):
        Fake.calls.append(dict(kw, outputfiles_basename=outputfiles_basename, resume=resume))
        rng = np.random.default_rng(abs(seed))
        if not os.path.isdir(os.path.dirname(outputfiles_basename) or '.'):
            raise IOError("no directory for output files")
        n = 6000
        pts, ll = np.empty((n, n_dims)), np.empty(n)
        for j in range(n):
            buf = (ctypes.c_double * n_dims)(*rng.random(n_dims))
            cube = ctypes.cast(buf, ctypes.POINTER(ctypes.c_double))
            Prior(cube, n_dims, n_dims)
            pts[j] = [buf[q] for q in range(n_dims)]
            ll[j] = LogLikelihood(cube, n_dims, n_dims)
        w = np.exp(ll - ll.max())
        lnz = np.log(w.mean()) + ll.max()
        ess = w.sum() ** 2 / (w ** 2).sum()
        idx = rng.choice(n, size=400, p=w / w.sum())
        np.savetxt(outputfiles_basename + 'post_equal_weights.dat', np.column_stack([pts[idx], ll[idx]]), fmt='%.17g')
        np.savetxt(outputfiles_basename + 'stats.dat', [lnz, 1 / np.sqrt(ess) if ess < n - 1 else 1e-3])

    class Analyzer:
        def __init__(self, n_params, outputfiles_basename='chains/1-', verbose=True):
            self.base, self.n = outputfiles_basename, n_params

        def get_equal_weighted_posterior(self):
            return np.loadtxt(self.base + 'post_equal_weights.dat', ndmin=2)

        def get_stats(self):
            z, e = np.loadtxt(self.base + 'stats.dat')
            return {'global evidence': float(z), 'global evidence error': float(e), 'nested sampling global log-evidence': float(z),
                    'nested sampling global log-evidence error': float(e), 'modes': [], 'marginals': []}


def kwargs(name, rng, live, quick):
    seed = int(rng.integers(2 ** 31))
    if name == 'dynesty-static':
        return dict(nlive=live, rstate=np.random.default_rng(seed)), dict(print_progress=False, dlogz=.1)
    if name == 'dynesty-dynamic':
        return dict(nlive=live, rstate=np.random.default_rng(seed)), dict(print_progress=False, nlive_init=live, nlive_batch=live, maxbatch=1, n_effective=400)
    if name == 'ultranest':
        return {}, dict(min_num_live_points=live, show_status=False, viz_callback=False, min_ess=200, frac_remain=.1)
    if name == 'nautilus':
        return dict(n_live=2 * live, seed=seed, n_networks=1), dict(verbose=False, n_eff=300, f_live=.05)
    return None, dict(seed=seed, n_live_points=live)


def target(rng, two=False):
    """Gaussian likelihood in (k, gamma, dvdt) with proper priors: evidence and posterior by linear algebra, bounded priors taken wide."""
    s = gen.system(radvel, rng, npl=1, basis=gen.pick(rng, ['per tc e w k', 'per tc secosw sesinw k', 'logper tc secosw sesinw k', 'per tc se w k']), emax=.4,
                   nobs=int(rng.integers(10, 16)), vary=(0,), linear=False, trend=gen.pick(rng, ['none', 'dvdt']), insts=['j'], decorr=[])
    P = s.P
    free = ['k1', 'gamma_j'] + (['dvdt'] if 'dvdt' in P and rng.random() < .5 else [])
    if rng.random() < .2 and not two:
        free = free[:1]
    for k in free:
        P[k].vary = True
    t, y, err, dv = s.data['j']
    vals = gen.values(P)
    base = dict(vals, **{k: 0. for k in free})
    mean = lambda v: ref.model_rv(v, s.basis, 1, t, s.time_base)[0] + v['gamma_j']
    m0 = mean(base)
    D = np.array([mean(dict(base, **{k: 1.})) - m0 for k in free])
    w = 1 / (err ** 2 + vals['jit_j'] ** 2)
    F, b = (D * w) @ D.T, (D * w) @ (y - m0)
    sc = np.sqrt(np.diag(F))
    if np.linalg.cond(F / np.outer(sc, sc)) > 20:
        raise Skip("ill-posed")
    s.mod.vector.dict_to_vector()
    for lk in s.likes:
        lk.list_vary_params()
    post = Rec(s.like)
    names = list(post.name_vary_params())
    C0 = np.linalg.inv(F)
    mu0, sd0 = C0 @ b, np.sqrt(np.diag(C0))
    # ln Z = ln int L(x) prior(x) dx
    F1, b1, const, pri = F.copy(), b.copy(), 0., []
    for j, k in enumerate(free):
        if rng.random() < .5:
            m_, s_ = mu0[j] + rng.uniform(-1, 1) * sd0[j], sd0[j] * rng.uniform(.7, 3)
            pri.append(rp.Gaussian(k, m_, s_))
            F1[j, j] += 1 / s_ ** 2
            b1[j] += m_ / s_ ** 2
            const += -.5 * m_ ** 2 / s_ ** 2 - .5 * np.log(2 * np.pi * s_ ** 2)
        else:
            lo, hi = mu0[j] - rng.uniform(7, 12) * sd0[j], mu0[j] + rng.uniform(7, 12) * sd0[j]
            pri.append(rp.HardBounds(k, lo, hi))
            const += -np.log(hi - lo)
    pri = [pri[j] for j in rng.permutation(len(pri))]
    post.priors = pri
    C = np.linalg.inv(F1)
    mu, sd = C @ b1, np.sqrt(np.diag(C))
    L0 = gen.loglike(s, dict(base), gen.varies(P))
    lnZ = L0 + const + .5 * b1 @ C @ b1 + .5 * len(free) * np.log(2 * np.pi) + .5 * np.linalg.slogdet(C)[1]
    order = [free.index(k) for k in names]
    return s, post, names, mu[order], sd[order], lnZ


def target2(rng):
    """A nonlinear posterior with constraint priors: no known answer, everything exact is still observed."""
    s = gen.system(radvel, rng, npl=1, emax=.4, nobs=int(rng.integers(8, 12)), vary=(0,), linear=None, insts=gen.pick(rng, [['j'], ['k', 'j']]), decorr=[])
    P = s.P
    ks = s.basis.split()
    pool = [ks[0] + '1', ks[1] + '1', ks[4] + '1', ks[2] + '1', ks[3] + '1', 'jit_' + s.insts[0], 'gamma_' + s.insts[0]]
    pool = [k for k in pool if not P[k].linear]
    free = [pool[j] for j in rng.permutation(len(pool))[:3]]
    for k in free:
        P[k].vary = True
    s.mod.vector.dict_to_vector()
    for lk in s.likes:
        lk.list_vary_params()
    post = Rec(s.like)
    v = gen.values(P)
    pri = []
    for k in free:
        x = v[k]
        wd = {'p': .02 * abs(x), 'l': .05, 't': .3, 'j': 2., 'g': 5.}.get(k[0], .3 * abs(x) + .05)
        opts = [lambda: rp.HardBounds(k, x - wd, x + wd), lambda: rp.Gaussian(k, x, wd)]
        if k.startswith('jit') or k == 'k1':
            opts = [lambda: rp.Jeffreys(k, .05, 50.), lambda: rp.ModifiedJeffreys(k, .5, 50., .3), lambda: rp.HardBounds(k, 0., 50.)]
        if k in ('secosw1', 'sesinw1', 'ecosw1', 'esinw1', 'e1', 'se1'):
            opts = [lambda: rp.HardBounds(k, 0. if k in ('e1', 'se1') else -.6, .6)]
        pri.append(gen.pick(rng, opts)())
    if rng.random() < .6:
        pri.append(rp.EccentricityPrior(1, .8))
    if rng.random() < .4 and 'k1' in P:
        pri.append(rp.PositiveKPrior(1))
    post.priors = [pri[j] for j in rng.permutation(len(pri))]
    return s, post, list(post.name_vary_params())


def tree(d):
    out = {}
    for a, _, c in os.walk(d):
        for f in c:
            p = os.path.join(a, f)
            out[os.path.relpath(p, d)] = hashlib.sha1(open(p, 'rb').read()).hexdigest()
    return out


def plain(d):
    return None if d is None else {k: (v if not isinstance(v, np.random.Generator) else 'rng') for k, v in d.items()}


def go(m, post, **kw):
    LOG.clear()
    logging.disable(logging.CRITICAL)
    sk, rk = kw.get('sampler_kwargs'), kw.get('run_kwargs')
    before = (plain(sk), plain(rk))
    try:
        with silent(), warnings.catch_warnings():
            warnings.simplefilter('ignore')
            r = m.call(ns.run, post, **kw)
    finally:
        logging.disable(logging.NOTSET)
    m.same((plain(sk), plain(rk)), before, "callers-options-unchanged", backend=kw['sampler'])
    return r


def judge(m, post, names, r, backend, rng, fresh=True):
    m.check(sorted(r)[:3] == ['lnZ', 'lnZerr', 'sampler'][:3] or {'samples', 'lnZ', 'lnZerr'} <= set(r), "result-keys", keys=sorted(r))
    df = r['samples']
    m.same(list(df.columns), names + ['lnprobability'], "one-column-per-free-parameter", backend=backend)
    m.check(len(df) > 20, "samples-returned", n=len(df), backend=backend)
    V, L = df[names].values.astype(float), df['lnprobability'].values.astype(float)
    m.check(np.all(np.isfinite(V)) and np.all(np.isfinite(L)), "inside-the-support", backend=backend, nbad=int((~np.isfinite(L)).sum()))
    from .c14 import post2_logprob
    for j in rng.permutation(len(df))[:30]:
        m.close(L[j], post2_logprob(post, names, V[j]), "row-carries-its-own-log-probability", rtol=1e-8, atol=1e-8, backend=backend)
    if fresh:
        seen = np.array([x for x, l in LOG])
        m.check(len(seen) > 0, "evaluations-recorded")
        if len(seen):
            got = set(map(bytes, np.ascontiguousarray(np.round(seen, 12))))
            inside = [bytes(x) in got for x in np.ascontiguousarray(np.round(V, 12))]
            m.check(np.mean(inside) > .999, "samples-are-evaluated-points", backend=backend, fraction=np.mean(inside))
    m.check(np.ndim(r['lnZ']) == 0 and np.ndim(r['lnZerr']) == 0 and np.isfinite(r['lnZ']) and r['lnZerr'] > 0, "evidence-is-a-number", lnZ=r['lnZ'], err=r['lnZerr'])
    S = r.get('sampler')
    if S is not None:
        if backend.startswith('dynesty'):
            m.close((r['lnZ'], r['lnZerr']), (S.results['logz'][-1], S.results['logzerr'][-1]), "evidence-is-the-sampler's")
        elif backend == 'ultranest':
            m.close((r['lnZ'], r['lnZerr']), (S.results['logz'], S.results['logzerr']), "evidence-is-the-sampler's")
        elif backend == 'nautilus':
            m.close(r['lnZ'], S.log_z, "evidence-is-the-sampler's")
            m.check(1 / 3. < r['lnZerr'] * np.sqrt(S.n_eff) < 3, "evidence-is-the-sampler's", what='uncertainty', got=r['lnZerr'], samples=S.n_eff)
    return V


def state_of(post):
    fixed = [k for k in post.params if not post.params[k].vary and not post.params[k].linear]
    return ([(k, float(post.params[k].value), bool(post.params[k].vary), bool(post.params[k].linear)) for k in post.params],
            [float(post.vector.vector[post.vector.indices[k]][0]) for k in fixed], [float(x) for x in post.vector.vector[:, 1]],
            list(post.name_vary_params()), [repr(p) for p in post.priors], [k for k in post.params])


def u_known(m, rng, i):
    backend = NAMES[i % len(NAMES)]
    s, post, names, mu, sd, lnZ = target(rng, backend == 'nautilus')
    live = 80 if m.quick else 150
    sk, rk = kwargs(backend, rng, live, m.quick)
    m.describe(backend=backend, free=names, priors=[repr(p)[:50] for p in post.priors], basis=s.basis)
    m.state("backend", backend)
    Fake.install()
    before = state_of(post)
    out = gen.pick(rng, [None, None, 'new'])
    d = None if out is None else os.path.join(m.scratch, "k%d" % i, "deep")
    cwd = os.getcwd()
    work = os.path.join(m.scratch, "cwd%d" % i)
    os.makedirs(os.path.join(work, "tmpdir"))
    open(os.path.join(work, "tmpdir", "mine"), 'w').write("x")
    os.chdir(work)
    try:
        r = go(m, post, sampler=gen.pick(rng, [backend, backend.upper()]), sampler_kwargs=sk, run_kwargs=rk, output_dir=d)
        m.same(sorted(tree(work)), ['tmpdir/mine'], "nothing-left-or-removed-elsewhere", backend=backend)
    finally:
        os.chdir(cwd)
    m.same(state_of(post), before, "fixed-parameters-unchanged", backend=backend)
    V = judge(m, post, names, r, backend, rng)
    m.event("evaluations", len(LOG))
    m.check(abs(r['lnZ'] - lnZ) < 5 * r['lnZerr'] + .25, "evidence-agrees-with-the-analytic-one", backend=backend, got=r['lnZ'], err=r['lnZerr'], want=lnZ, priors=[repr(p) for p in post.priors])
    n = len(V)
    for j, k in enumerate(names):
        m.check(abs(V[:, j].mean() - mu[j]) < .5 * sd[j], "moments-agree-with-the-analytic-posterior", backend=backend, name=k, got=V[:, j].mean(), want=mu[j], sd=sd[j], n=n)
        m.check(.65 < V[:, j].std() / sd[j] < 1.45, "moments-agree-with-the-analytic-posterior", backend=backend, name=k, got=V[:, j].std(), want=sd[j], n=n, what='sd')
    m.sample(backend=backend, lnZ=r['lnZ'], err=r['lnZerr'], want=lnZ, n=n)


def u_files(m, rng, i):
    backend = (NAMES + ['multinest', 'dynesty-static'])[i % 7]
    if rng.random() < .5:
        s, post, names, *_ = target(rng, True)
    else:
        s, post, names = target2(rng)
    sk, rk = kwargs(backend, rng, 40, m.quick)
    if backend == 'nautilus':
        rk['n_eff'] = 60
    m.describe(backend=backend, free=names, priors=[repr(p)[:50] for p in post.priors])
    m.state("backend", backend)
    Fake.install()
    kind = gen.pick(rng, ['new', 'deep', 'existing'])
    d = os.path.join(m.scratch, "f%d" % i, *(['a', 'b'] if kind == 'deep' else []))
    if kind == 'existing' and backend != 'multinest':
        os.makedirs(d)
    before = state_of(post)
    r = go(m, post, sampler=backend, sampler_kwargs=sk, run_kwargs=rk, output_dir=d)
    n1 = len(LOG)
    judge(m, post, names, r, backend, rng)
    f = os.path.join(d, "results.hdf5")
    def same_as(r, where):
        g = m.call(ns.load_results, f)
        m.same((g['lnZ'], g['lnZerr']), (float(r['lnZ']), float(r['lnZerr'])), "loaded-results-equal-the-returned", where=where, backend=backend)
        m.check(list(g['samples'].columns) == list(r['samples'].columns) and np.array_equal(g['samples'].values, r['samples'].values) and list(g['samples'].index) == list(r['samples'].index),
                "loaded-results-equal-the-returned", where=where, backend=backend)
    same_as(r, "first run")
    # existing results are refused without being touched
    t0 = tree(d)
    for kw in ({}, {'sampler': gen.pick(rng, NAMES)}):
        sk2, rk2 = kwargs(kw.get('sampler', backend), rng, 40, m.quick)
        with silent():
            m.raises(ns.run, post, _mon="existing-results-refused", **dict(dict(sampler=backend, sampler_kwargs=sk2, run_kwargs=rk2, output_dir=d), **kw))
        m.same(tree(d), t0, "existing-results-untouched", backend=backend)
    # asked to overwrite: with the very same option dictionaries
    r2 = go(m, post, sampler=backend, sampler_kwargs=sk, run_kwargs=rk, output_dir=d, overwrite=True)
    n2 = len(LOG)
    judge(m, post, names, r2, backend, rng)
    same_as(r2, "overwritten")
    old = {tuple(x) for x in r['samples'][names].values.tolist()}
    again = sum(tuple(x) in old for x in r2['samples'][names].values.tolist())
    m.check(n2 > 40 and (n2 > .3 * n1 or again == 0), "overwriting-starts-anew", backend=backend, first=n1, second=n2, samples_of_the_old_run=again)
    # asked to proceed: the finished run is not repeated
    if backend != 'multinest':
        r3 = go(m, post, sampler=backend, sampler_kwargs=sk, run_kwargs=rk, output_dir=d, proceed=True)
        n3 = len(LOG)
        judge(m, post, names, r3, backend, rng, fresh=False)
        same_as(r3, "proceeded")
        m.check(n3 < .6 * n2, "proceeding-resumes", backend=backend, second=n2, third=n3)
        # an unfinished run (no results yet) is not resumed unless asked
        os.unlink(f)
        r4 = go(m, post, sampler=backend, sampler_kwargs=sk, run_kwargs=rk, output_dir=d)
        m.check(len(LOG) > .3 * n1, "not-resumed-unless-asked", backend=backend, first=n1, again=len(LOG))
        same_as(r4, "after removal")
        # proceed where there is nothing yet
        e = d + "_empty"
        r5 = go(m, post, sampler=backend, sampler_kwargs=sk, run_kwargs=rk, output_dir=e, proceed=True)
        judge(m, post, names, r5, backend, rng)
    else:
        m.same([c['resume'] for c in Fake.calls[-2:]], [False, False], "not-resumed-unless-asked")
        go(m, post, sampler='pymultinest', sampler_kwargs=None, run_kwargs=rk, output_dir=d, proceed=True)
        m.same(Fake.calls[-1]['resume'], True, "proceeding-resumes")
    m.same(state_of(post), before, "fixed-parameters-unchanged", backend=backend)
    m.sample(backend=backend, evals=[n1, n2])


def u_refuse(m, rng, i):
    s, post, names, *_ = target(rng)
    Fake.install()
    d = os.path.join(m.scratch, "r%d" % i)
    backend = gen.pick(rng, NAMES)
    sk, rk = kwargs(backend, rng, 40, True)
    full = list(post.priors)
    def bad(priors, what, **kw):
        post.priors = priors
        LOG.clear()
        a = dict(sampler=backend, sampler_kwargs=sk, run_kwargs=rk, output_dir=d)
        a.update(kw)
        with silent():
            m.raises(ns.run, post, _mon="refused", _detail={'what': what, 'backend': backend}, **a)
        m.same(len(LOG), 0, "refused", what=what + " evaluated")
        m.check(not os.path.exists(d), "refused", what=what + " left files")
        post.priors = full
    bad([p for p in full[1:]], "a parameter without prior")
    bad([], "no priors")
    bad(full + [rp.HardBounds(names[0], -1e3, 1e3)], "two priors on a parameter")
    bad([rp.PositiveKPrior(1)] + full[1:], "only a constraint")
    bad(full + [rp.UserDefinedPrior(names, lambda x: 0., 'joint')], "a joint prior without transform")
    bad(full, "unknown sampler", sampler=gen.pick(rng, ['emcee', 'dynesty', 'nest', '']), sampler_kwargs=None, run_kwargs=None)
    bad(full, "own checkpoint file", sampler='dynesty-static', sampler_kwargs={}, run_kwargs={'checkpoint_file': d})
    bad(full, "own resume", sampler='dynesty-dynamic', sampler_kwargs={}, run_kwargs={'resume': True})
    bad(full, "own log_dir", sampler='ultranest', sampler_kwargs={'log_dir': d}, run_kwargs={})
    bad(full, "own resume", sampler='ultranest', sampler_kwargs={'resume': True}, run_kwargs={})
    bad(full, "own filepath", sampler='nautilus', sampler_kwargs={'filepath': d}, run_kwargs={})
    bad(full, "own resume", sampler='nautilus', sampler_kwargs={'resume': True}, run_kwargs={})
    bad(full, "own basename", sampler='multinest', sampler_kwargs=None, run_kwargs={'outputfiles_basename': d})
    bad(full, "own resume", sampler='multinest', sampler_kwargs=None, run_kwargs={'resume': True})
    bad(full, "sampler options", sampler='multinest', sampler_kwargs={'n': 1}, run_kwargs={})


UNITS = [("files", u_files, 14, 140), ("known", u_known, 25, 250), ("refuse", u_refuse, 6, 40)]
REQUIRED = ["evidence-agrees-with-the-analytic-one", "moments-agree-with-the-analytic-posterior", "row-carries-its-own-log-probability", "inside-the-support",
            "one-column-per-free-parameter", "loaded-results-equal-the-returned", "existing-results-refused", "existing-results-untouched", "callers-options-unchanged",
            "fixed-parameters-unchanged", "refused", "samples-are-evaluated-points", "not-resumed-unless-asked", "proceeding-resumes"]
