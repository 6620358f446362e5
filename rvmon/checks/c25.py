"""C25: evaluations read their arguments, change nothing else, and do not depend on what else runs: alone, interleaved, in threads, in another process."""
import copy, hashlib, json, os, pickle, subprocess, sys, threading, warnings
import numpy as np
import pandas as pd
import radvel, radvel.fitting
from radvel import kepler, orbit, utils, prior as rp
from radvel.basis import Basis
from .. import gen, ref
from ..chains import silent
from ..core import Skip, HarnessError, REPO, VERIF_ROOT

ANCHORS = ["kepler.py", "orbit.py", "basis.py", "model.py", "likelihood.py", "posterior.py", "utils.py", "gp.py", "prior.py", "fitting.py", "mcmc.py"]
RULE = ("Scripts of 15-40 evaluations on generated analyses (0-3 planets, every basis, several instruments, decorrelation, kernels, priors), run alone, interleaved with "
        "other analyses that share data arrays and option lists, in concurrent threads with a switch interval of 1-50 us, and in processes with other hash seeds; every numerical "
        "function called with writable, read-only, strided, reversed and Fortran-ordered arguments; seeded MCMC runs repeated after unrelated work.")
ASSUMPTIONS = ["objects of one analysis are not shared between threads", "the pseudo-random state is the caller's: seeded runs are compared under equal seeds"]
ORDER = ["seeded", "process", "threads", "interleave", "arguments"]
CASE_CPU_LIMIT = 120


# ---------------------------------------------------------------- traces
def norm(x):
    """A value as something that compares bit for bit."""
    if isinstance(x, pd.DataFrame):
        return ('frame', tuple(map(str, x.columns)), tuple(norm(x[c].values) for c in x.columns))
    if isinstance(x, pd.Series):
        return ('series', norm(x.values))
    if isinstance(x, np.ndarray):
        a = np.ascontiguousarray(x)
        if a.dtype == object:
            return ('objects', tuple(norm(v) for v in a.ravel()))
        if a.dtype.kind == 'f':
            a = np.where(np.isnan(a), np.nan, a)        # one NaN
        return ('array', a.shape, a.dtype.str, hashlib.sha1(a.tobytes()).hexdigest(), repr(a.ravel()[:3].tolist()))
    if isinstance(x, (float, np.floating)):
        return ('number', float(x).hex())
    if isinstance(x, (list, tuple)):
        return ('list', tuple(norm(v) for v in x))
    if isinstance(x, dict):
        return ('dict', tuple((str(k), norm(v)) for k, v in x.items()))
    if isinstance(x, radvel.Parameters):
        return ('parameters', gen.snapshot(x))
    return ('text', str(x))


def make(seed):
    """An analysis from a seed."""
    rng = np.random.default_rng(seed)
    gp = gen.pick(rng, [None, None, None, 'SqExp', 'Per', 'QuasiPer', 'Celerite'])
    s = gen.system(radvel, rng, npl=int(rng.integers(0, 4)), gp=gp, insts=['j'] if gp and rng.random() < .6 else None, linear=False if gp else None, nobs=int(rng.integers(6, 20)))
    post = radvel.posterior.Posterior(s.like)
    names = [k for k in post.name_vary_params()]
    pri = []
    for k in names:
        v = s.P[k].value
        c = rng.integers(5)
        if c == 0:
            pri.append(rp.Gaussian(k, v, abs(v) * .1 + .5))
        elif c == 1:
            pri.append(rp.HardBounds(k, v - 2, v + 3))
        elif c == 2 and v > 0:
            pri.append(rp.Jeffreys(k, v / 3, v * 4))
        elif c == 3:
            pri.append(rp.NumericalPrior([k], rng.normal(v, 1., 30)))
        else:
            pri.append(rp.UserDefinedPrior([k], lambda p, v=v: -abs(p[0] - v), 'user'))
    if s.npl and rng.random() < .5:
        pri.append(rp.EccentricityPrior(s.npl, .95))
    if s.npl and rng.random() < .5:
        pri.append(rp.PositiveKPrior(s.npl))
    post.priors += pri
    return s, post


def script(seed, n, slow=False):
    """A list of operations, as data."""
    rng = np.random.default_rng([seed, 7])
    ops = []
    for _ in range(n):
        k = gen.pick(rng, ['lnp', 'lnp', 'like', 'set', 'resid', 'errs', 'model', 'planet', 'bic', 'repr', 'predict', 'basis', 'vbasis', 'copy', 'pickle', 'orbit', 'kepler', 'names', 'phase',
                           'draw', 'bin', 'mass', 'frame', 'label', 'prior', 'poke', 'getset'] + (['fit'] if slow else []))
        ops.append((k, int(rng.integers(2 ** 31))))
    return ops


def step(an, op, grid):
    """Executes one operation; returns what it gives."""
    s, post = an['s'], an['post']
    rng = np.random.default_rng(op[1])
    k = op[0]
    P = post.params
    if k in ('lnp', 'like', 'set'):
        x = np.array(post.get_vary_params(), dtype=float)
        x = x * (1 + 1e-3 * rng.normal(size=len(x)))
        if k == 'lnp':
            return post.logprob_array(x)
        if k == 'like':
            return post.likelihood.logprob_array(x)
        post.set_vary_params(x)
        return post.get_vary_params()
    if k == 'resid':
        return post.residuals() if hasattr(post, 'residuals') else post.likelihood.residuals()
    if k == 'errs':
        return post.likelihood.errorbars()
    if k == 'model':
        return post.model(grid)
    if k == 'planet':
        return post.model(grid, planet_num=int(rng.integers(s.npl)) + 1) if s.npl else None
    if k == 'bic':
        return [post.likelihood.bic(), post.likelihood.aic(), post.bic(), post.aic()]
    if k == 'repr':
        return [repr(post), repr(post.likelihood), repr(P), [repr(p) for p in post.priors]]
    if k == 'predict':
        like = s.likes[int(rng.integers(len(s.likes)))]
        if not s.gp:
            return None
        like = an['likes'][int(rng.integers(len(an['likes'])))]
        return list(like.predict(grid[:9]))
    if k == 'basis':
        return P.basis.to_any_basis(P, gen.pick(rng, ref.BASES)) if s.npl else None
    if k == 'vbasis':
        return P.basis.v_to_synth(post.vector) if s.npl else None
    if k == 'copy':
        put(an, copy.deepcopy(post))
        return post.logprob()
    if k == 'pickle':
        if any(isinstance(p, rp.UserDefinedPrior) for p in post.priors):
            return None
        put(an, pickle.loads(pickle.dumps(post)))
        return an['post'].logprob()
    if k == 'orbit':
        per, tp, e, w, kk = gen.orbit(rng, emax=.95)
        return [orbit.timeperi_to_timetrans(tp, per, e, w), orbit.timetrans_to_timeperi(tp, per, e, w), orbit.true_anomaly(grid, tp, per, e)]
    if k == 'kepler':
        o = gen.orbit(rng, emax=.95)
        return [kepler.rv_drive(grid, o), kepler.rv_drive(grid, o, use_c_kepler_solver=False), kepler.kepler(grid % 6.28, np.full(len(grid), o[2]))]
    if k == 'names':
        return [post.name_vary_params(), post.list_vary_params(), post.likelihood.list_vary_params(), list(post.vector.names)]
    if k == 'phase':
        return utils.t_to_phase(P, grid, int(rng.integers(s.npl)) + 1, cat=bool(rng.integers(2))) if s.npl else None
    if k == 'draw':
        if s.gp:
            return None
        names = post.model.list_vary_params() if hasattr(post.model, 'list_vary_params') else []
        ch = pd.DataFrame({n: P[n].value * (1 + .001 * rng.normal(size=7)) for n in P})
        return utils.draw_models_from_chain(post.model, ch, grid[:5], nsamples=4)
    if k == 'bin':
        t = np.sort(rng.uniform(0, 20, 30)); y = rng.normal(0, 3, 30); e = rng.uniform(1, 2, 30)
        tel = rng.choice(['a', 'b', 'c'], 30)
        return [list(utils.timebin(t, y, e, .7)), list(utils.bintels(t, y, e, tel, binsize=.5)), list(utils.fastbin(t, y, nbins=6))]
    if k == 'mass':
        a = rng.uniform(1, 5, 4)
        return [utils.Msini(a, 10 * a, 1 / a, .1), utils.semi_amplitude(a, 10 * a, 1 / a, .1), utils.semi_major_axis(10 * a, a), utils.density(a, a + 1)]
    if k == 'frame':
        if not s.npl:
            return None
        df = pd.DataFrame({n: P[n].value * (1 + 1e-4 * rng.normal(size=5)) for n in P})
        bas = Basis(s.basis, s.npl)
        return bas.from_synth(bas.to_synth(df), gen.pick(rng, ref.BASES))
    if k == 'label':
        return [P.tex_labels(), sorted(post.params.planet_letters.items()) if post.params.planet_letters else None]
    if k == 'prior':
        return [p(P, post.vector) for p in post.priors]
    if k == 'poke':
        n = sorted(P)[int(rng.integers(len(P)))]
        P[n].value = P[n].value * 1.0001
        post.vector.dict_to_vector()
        return [float(P[n].value), post.logprob()]
    if k == 'getset':
        V = post.vector
        V.vector_to_dict()
        return [V.vector.copy(), P]
    if k == 'fit':
        with silent():
            p2 = radvel.fitting.maxlike_fitting(copy.deepcopy(post), verbose=False)
        return [p2.get_vary_params(), p2.logprob()]
    raise KeyError(k)


def put(an, post):
    an['post'] = post
    like = post.likelihood
    an['likes'] = like.like_list if hasattr(like, 'like_list') else [like]


def relate(s, post, kind):
    """An analysis that looks much like the one of this seed: same sizes, first and last times and sums, other content."""
    rng = np.random.default_rng([kind, len(s.P)])
    for k, (t, y, e, dv) in list(s.data.items()):
        if kind % 2:
            t = t.copy()
            j = [q for q in np.argsort(t)[1:-1] if 0 < q < len(t) - 1]
            if len(j) >= 2:
                d = .3 * min(t[j[0]] - t.min(), t.max() - t[j[-1]])
                t[j[0]] -= d
                t[j[-1]] += d
            y, e = rng.permutation(y), rng.permutation(e)
            dv = {q: rng.permutation(v) for q, v in dv.items()}
        s.data[k] = (t, y, e, dv)
    P = copy.deepcopy(s.P)
    if kind >= 2:
        for p in P.values():
            p.value = p.value * (1 + 1e-7 * rng.uniform(-1, 1))
    mod = radvel.RVModel(P, time_base=s.time_base)
    s.P, s.mod = P, mod
    s.likes = [gen.make_like(radvel, s, mod, k) for k in s.insts]
    s.like = s.likes[0] if len(s.likes) == 1 else radvel.likelihood.CompositeLikelihood(s.likes)
    new = radvel.posterior.Posterior(s.like)
    new.priors += post.priors[len(new.priors):]
    return new


def begin(seed, twin=None):
    """seed: number, or (number, kind) for a relative.  twin: share data arrays, dictionaries of vectors and prior objects with this (fresh) analysis."""
    kind = 0
    if not isinstance(seed, int):
        seed, kind = seed
    if twin is None:
        s, post = make(seed)
        if kind:
            post = relate(s, post, kind)
        an = {'s': s, 'origin': (copy.deepcopy(s.P), post)}
    else:
        s = twin['s']
        P, other = twin['origin']
        mod = radvel.RVModel(copy.deepcopy(P), time_base=s.time_base)
        likes = [gen.make_like(radvel, s, mod, k) for k in s.insts]
        post = radvel.posterior.Posterior(likes[0] if len(likes) == 1 else radvel.likelihood.CompositeLikelihood(likes))
        post.priors += other.priors[len(post.priors):]
        an = {'s': s, 'origin': (P, other)}
    put(an, post)
    grid = s.time_base + np.linspace(-60, 160, 40)
    return an, grid


KEEP = ('model', 'planet', 'resid', 'errs', 'predict', 'kepler', 'orbit', 'phase', 'draw', 'bin', 'mass', 'frame', 'set', 'vbasis', 'names', 'bic')


def do(an, op, grid, kept=None):
    with warnings.catch_warnings(), np.errstate(all='ignore'):
        warnings.simplefilter('ignore')
        try:
            r = step(an, op, grid)
            if kept is not None and op[0] in KEEP:
                kept.append((op[0], r, norm(r)))
            return norm(r)
        except Exception as e:
            return ('raised', type(e).__name__, str(e)[:200])


def alone(seed, ops, do=do):
    an, grid = begin(seed)
    return [do(an, op, grid) for op in ops] + [('final', gen.snapshot(an['post'].params))]


def forked(seed, ops):
    """alone(), in a child process of its own: whatever it leaves behind goes with it."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            with os.fdopen(w, 'wb') as f:
                f.write(pickle.dumps(alone(seed, ops)))
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        b = f.read()
    _, st = os.waitpid(pid, 0)
    if st != 0 or not b:
        raise HarnessError("child ended with %s" % st)
    return pickle.loads(b)


def bare(an, op, grid):
    """Without protection of the process state."""
    try:
        return norm(step(an, op, grid))
    except Exception as e:
        return ('raised', type(e).__name__, str(e)[:200])


def base(seed):
    return seed if isinstance(seed, int) else seed[0]


def relatives(rng, seeds):
    """Sometimes relatives of the first analysis, which has the same script."""
    out = list(seeds)
    c = rng.random()
    if c < .25:
        out[-1] = out[0]               # twins
    elif c < .7:
        out[-1] = (out[0], int(rng.integers(1, 4)))
    return out


def compare(m, got, want, mon, **d):
    m.same(len(got), len(want), mon, what="length", **d)
    for j, (a, b) in enumerate(zip(got, want)):
        if a != b:
            m.check(False, mon, operation=j, got=repr(a)[:400], want=repr(b)[:400], **d)
            return False
        m.check(True, mon)
    return True


def process_state():
    import locale, signal
    import matplotlib
    return {'numpy errors': dict(np.geterr()), 'print options': repr(np.get_printoptions()), 'directory': os.getcwd(), 'environment': dict(os.environ), 'path': list(sys.path),
            'warnings': [repr(f) for f in warnings.filters], 'recursion limit': sys.getrecursionlimit(), 'locale': locale.setlocale(locale.LC_ALL), 'threads': threading.active_count(),
            'pandas': repr(pd.get_option('display.max_rows')) + repr(pd.get_option('mode.chained_assignment')), 'signals': repr([signal.getsignal(x) for x in (signal.SIGINT, signal.SIGTERM)]),
            'rc': hashlib.sha1(repr(sorted((k, str(v)) for k, v in matplotlib.rcParams.items() if k != 'backend')).encode()).hexdigest(), 'files': len(os.listdir('/proc/self/fd'))}


# ---------------------------------------------------------------- units
def u_interleave(m, rng, i):
    n = int(rng.integers(2, 5))
    seeds = [int(rng.integers(2 ** 31)) for _ in range(n)]
    seeds = relatives(rng, seeds)
    scripts = [script(base(sd), int(rng.integers(15, 40)), slow=rng.random() < .1) for sd in seeds]
    want = [forked(sd, sc) for sd, sc in zip(seeds, scripts)]
    np.random.seed(int(rng.integers(2 ** 31)))
    old = np.seterr(**{k: gen.pick(rng, ['warn', 'ignore']) for k in ('divide', 'over', 'under', 'invalid')})
    filters = list(warnings.filters)
    warnings.simplefilter(gen.pick(rng, ['ignore', 'default']))
    try:
        with silent():
            before, rs = process_state(), np.random.get_state()
            again = alone(seeds[0], scripts[0], bare)
            after, rs2 = process_state(), np.random.get_state()
    finally:
        np.seterr(**old)
        warnings.filters[:] = filters
        warnings._filters_mutated()
    for k in before:
        m.same(after[k], before[k], "process-state-untouched", what=k, ops=[o[0] for o in scripts[0]])
    m.check(rs[2] == rs2[2] and np.array_equal(rs[1], rs2[1]), "random-state-untouched", ops=[o[0] for o in scripts[0]])
    compare(m, again, want[0], "repetition-identical", seed=seeds[0])
    for w in want:
        for a in w:
            m.event("results" if a[0] != 'raised' else "operations that raised")
            if a[0] == 'raised':
                m.state("raised", a[1:])
    ans = []
    for j, sd in enumerate(seeds):
        twin = [a for a, b in zip(ans, seeds) if b == sd and a[0]['s'].data]
        ans.append(begin(sd, twin[0][0] if twin and rng.random() < .8 else None))
        if twin:
            m.event("analyses sharing data arrays and priors")
    got = [[] for _ in range(n)]
    kept = []
    order = []
    while True:
        live = [j for j in range(n) if len(got[j]) < len(scripts[j])]
        if not live:
            break
        j = gen.pick(rng, live)
        order.append(j)
        got[j].append(do(ans[j][0], scripts[j][len(got[j])], ans[j][1], kept))
    for j in range(n):
        got[j].append(('final', gen.snapshot(ans[j][0]['post'].params)))
    for k, r, was in kept:
        m.check(norm(r) == was, "results-kept-stay-as-they-were", operation=k)
    m.state("interleavings", hashlib.sha1(str(order).encode()).hexdigest()[:8])
    m.describe(seeds=seeds, order=order)
    for j in range(n):
        compare(m, got[j], want[j], "interleaved-as-alone", analysis=j, seed=seeds[j], ops=[o[0] for o in scripts[j]])
        m.state("operations", tuple(sorted({o[0] for o in scripts[j]}))[:4])


def u_threads(m, rng, i):
    n = int(rng.integers(2, 5))
    seeds = [int(rng.integers(2 ** 31)) for _ in range(n)]
    seeds = relatives(rng, seeds)
    scripts = [[o for o in script(base(sd), int(rng.integers(15, 40))) if o[0] not in ('fit',)] for sd in seeds]
    want = [forked(sd, sc) for sd, sc in zip(seeds, scripts)]
    m.describe(seeds=seeds)
    old = sys.getswitchinterval()
    for rep in range(2 if m.quick else 5):
        sys.setswitchinterval(float(10 ** rng.uniform(-6, -4.3)))
        log, got, errs = [], [[] for _ in range(n)], []
        gate = threading.Barrier(n)

        def work(j):
            try:
                an, grid = begin(seeds[j])
                gate.wait()
                for op in scripts[j]:
                    log.append(j)
                    with np.errstate(all='ignore'):
                        try:
                            r = norm(step(an, op, grid))
                        except Exception as e:
                            r = ('raised', type(e).__name__, str(e)[:200])
                    got[j].append(r)
                got[j].append(('final', gen.snapshot(an['post'].params)))
            except Exception as e:
                errs.append(repr(e))
                gate.abort()
        try:
            with warnings.catch_warnings(), np.errstate(all='ignore'):
                warnings.simplefilter('ignore')
                th = [threading.Thread(target=work, args=(j,)) for j in range(n)]
                [t.start() for t in th]
                [t.join() for t in th]
        finally:
            sys.setswitchinterval(old)
        if not m.check(not errs, "threads-finish", errors=errs):
            return
        switches = sum(a != b for a, b in zip(log, log[1:]))
        m.event("thread switches between operations", switches)
        m.state("interleavings", hashlib.sha1(bytes(log)).hexdigest()[:10])
        for j in range(n):
            if not compare(m, got[j], want[j], "threads-as-alone", analysis=j, seed=seeds[j], ops=[o[0] for o in scripts[j]]):
                return


CHILD = """
import sys, json, warnings
sys.path.insert(0, %r)
warnings.simplefilter('ignore')
from rvmon.run import import_radvel
import_radvel(%r)
from rvmon.checks import c25
import numpy as np
np.seterr(all='ignore')
for sd, sc in json.load(open(sys.argv[1])):
    print(json.dumps([repr(x) for x in c25.alone(sd, sc)]))
"""


def u_process(m, rng, i):
    jobs = []
    for _ in range(3):
        sd = int(rng.integers(2 ** 31))
        sc = script(sd, 25)
        jobs.append((sd, sc))
        jobs.append(((sd, int(rng.integers(1, 4))), sc))
    import radvel._kepler as K
    fn = os.path.abspath('c25_%d.json' % os.getpid())
    perm = [int(q) for q in rng.permutation(len(jobs))]
    json.dump([jobs[q] for q in perm], open(fn, 'w'))
    want = [[repr(x) for x in alone(sd, sc)] for sd, sc in jobs]
    m.describe(seeds=[j[0] for j in jobs])
    try:
        for hs in (0, int(rng.integers(1, 4294967295))):
            env = dict(os.environ, PYTHONHASHSEED=str(hs), RVMON_REPO=REPO)
            r = subprocess.run([sys.executable, '-W', 'ignore', '-c', CHILD % (VERIF_ROOT, os.path.realpath(K.__file__)), fn], capture_output=True, text=True, env=env, timeout=400)
            if not m.check(r.returncode == 0, "other-process-finishes", stderr=r.stderr[-1500:]):
                return
            lines = [json.loads(x) for x in r.stdout.splitlines() if x.startswith('[')]
            m.state("hash seeds", hs)
            m.same(len(lines), len(want), "other-process-same-results", what="analyses")
            for q, g in zip(perm, lines):
                w, (sd, sc) = want[q], jobs[q]
                compare(m, g, w, "other-process-same-results", seed=sd, hashseed=hs, ops=[o[0] for o in sc])
    finally:
        os.unlink(fn)


def variants(rng, a):
    """The same values in other containers."""
    a = np.asarray(a)
    out = [('writable', a.copy())]
    r = a.copy(); r.setflags(write=False)
    out.append(('read-only', r))
    if a.ndim == 1:
        b = np.empty(2 * len(a), dtype=a.dtype); b[::2] = a; b[1::2] = a[::-1] if a.dtype.kind not in 'fiu' else 77
        out.append(('strided', b[::2]))
        out.append(('reversed view', a[::-1].copy()[::-1]))
        c = np.zeros((len(a), 3), dtype=a.dtype, order='C'); c[:, 1] = a
        out.append(('column', c[:, 1]))
    elif a.ndim == 2:
        out.append(('fortran', np.asfortranarray(a)))
    return out


def catalogue(rng):
    """name, function of arrays, arrays"""
    n = int(rng.integers(3, 30))
    o = gen.gentle_orbit(rng, 0., emax=.9)
    t = np.sort(rng.uniform(-50, 100, n))
    y, e = rng.normal(0, 3, n), rng.uniform(.5, 2, n)
    tel = rng.choice(['a', 'b'], n)
    sec = rng.uniform(.05, .9, n)
    per = 10 ** rng.uniform(0, 2, n)
    w = rng.uniform(-3, 3, n)
    P = gen.params(radvel, [o], 'per tc e w k')
    for nm in ('gamma_j', 'jit_j'):
        P[nm] = radvel.Parameter(value=1.0)
    mod = radvel.RVModel(P, time_base=3.)

    def like(t, y, e, d):
        L = radvel.likelihood.RVLikelihood(radvel.RVModel(copy.deepcopy(P), time_base=3.), t, y, e, suffix='_j', decorr_vars=['d'], decorr_vectors={'d': d})
        L.params['c1_d_j'] = radvel.Parameter(value=.3); L.vector = L.model.vector = radvel.model.Vector(L.params)
        return [L.logprob(), L.residuals(), L.errorbars(), radvel.posterior.Posterior(L).logprob()]

    def gp(t, y, e, x):
        Q = copy.deepcopy(P)
        for h in ref.KERNELS['QuasiPer']:
            Q[h] = radvel.Parameter(value=float(sum(gen.HYPER[h]) / 2))
        L = radvel.likelihood.GPLikelihood(radvel.RVModel(Q, time_base=3.), t, y, e, hnames=list(ref.KERNELS['QuasiPer']), suffix='_j', kernel_name='QuasiPer')
        return [L.logprob(), L.residuals()] + list(L.predict(x))

    def cel(t, y, e, x):
        Q = copy.deepcopy(P)
        for h in ref.KERNELS['Celerite']:
            Q[h] = radvel.Parameter(value=float(sum(gen.HYPER[h]) / 2))
        L = radvel.likelihood.CeleriteLikelihood(radvel.RVModel(Q, time_base=3.), t, y, e, list(ref.KERNELS['Celerite']), suffix='_j')
        return [L.logprob(), L.residuals()] + list(L.predict(x))
    df = {c: v for c, v in zip(['per1', 'tc1', 'e1', 'w1', 'k1'], [per, t, sec, w, e])}

    def frames(per, tc, e, w, k):
        d = pd.DataFrame({'per1': per, 'tc1': tc, 'e1': e, 'w1': w, 'k1': k}, copy=False)
        b = Basis('per tc e w k', 1)
        before = d.copy(deep=True)
        sy = b.to_synth(d)
        new = b.from_synth(sy, 'logper tp secosw sesinw logk')
        return [sy, new, d.equals(before)]
    xs = np.sort(rng.uniform(-60, 110, 8))
    M = rng.uniform(-7, 7, n)
    return [
        ('rv_drive', lambda t: [kepler.rv_drive(t, o), kepler.rv_drive(t, o, use_c_kepler_solver=False)], [t]),
        ('rv_drive orbel', lambda q: [kepler.rv_drive(t, q), kepler.rv_drive(t, q, use_c_kepler_solver=False)], [np.array(o)]),
        ('kepler', lambda a, b: kepler.kepler(a, b), [M, sec]),
        ('true_anomaly', lambda t: orbit.true_anomaly(t, o[1], o[0], o[2]), [t]),
        ('transit time', lambda a, b, c, d: orbit.timeperi_to_timetrans(a, b, c, d), [t, per, sec, w]),
        ('eclipse time', lambda a, b, c, d: orbit.timeperi_to_timetrans(a, b, c, d, secondary=True), [t, per, sec, w]),
        ('periastron time', lambda a, b, c, d: orbit.timetrans_to_timeperi(a, b, c, d), [t, per, sec, w]),
        ('model', lambda t: [mod(t), mod(t, planet_num=1)], [t]),
        ('likelihood', like, [t, y, e, sec]),
        ('gp', gp, [t, y, e, xs]),
        ('celerite', cel, [t, y, e, xs]),
        ('timebin', lambda a, b, c: list(utils.timebin(a, b, c, 3.)), [t, y, e]),
        ('bintels', lambda a, b, c, d: list(utils.bintels(a, b, c, d, binsize=2.)), [t, y, e, tel]),
        ('fastbin', lambda a, b: list(utils.fastbin(a, b, nbins=4)), [t, y]),
        ('phase', lambda a: [utils.t_to_phase(P, a, 1), utils.t_to_phase(P, a, 1, cat=True), utils.t_to_phase_vector(mod.vector, a, 1)], [t]),
        ('geterr', lambda a: [utils.geterr(a), utils.geterr(a, angular=True)], [w]),
        ('semi_amplitude', lambda a, b, c, d: utils.semi_amplitude(a, b, c, d), [e, per, e + 1, sec]),
        ('Msini', lambda a, b, c, d: utils.Msini(a, b, c, d), [e, per, e + 1, sec]),
        ('semi_major_axis', lambda a, b: utils.semi_major_axis(a, b), [per, e]),
        ('density', lambda a, b: utils.density(a, b), [per, e]),
        ('frames', frames, [df[c] for c in ('per1', 'tc1', 'e1', 'w1', 'k1')]),
        ('numerical prior', lambda a: rp.NumericalPrior(['per1'], a)(P, mod.vector), [rng.normal(o[0], 2, 25)]),
        ('gaussian kde transform', lambda a: rp.NumericalPrior(['per1'], a).transform(.3), [rng.normal(o[0], 2, 25)]),
    ]


def u_arguments(m, rng, i):
    for name, fn, args in catalogue(rng):
        base = None
        vs = [variants(rng, a) for a in args]
        nv = min(len(v) for v in vs)
        for j in range(nv + 3):
            if j < nv:
                lab = [v[j][0] for v in vs]
                a = [v[j][1] for v in vs]
            else:                                 # mixtures
                c = [int(rng.integers(len(v))) for v in vs]
                lab = [v[q][0] for v, q in zip(vs, c)]
                a = [v[q][1] for v, q in zip(vs, c)]
                if all(l == lab[0] for l in lab):
                    continue
            roots = [x if x.base is None else x.base for x in a]
            before = [x.tobytes() for x in roots]
            flags = [(x.flags.writeable, x.shape, x.strides) for x in a]
            with warnings.catch_warnings(), np.errstate(all='ignore'):
                warnings.simplefilter('ignore')
                r1 = m.call(fn, *a, _mon="accepts-any-layout", _key=None)
                m.check([x.tobytes() for x in roots] == before, "arguments-unchanged", function=name, layout=lab,
                        changed=[int(q) for q, (x, b) in enumerate(zip(roots, before)) if x.tobytes() != b])
                m.same([(x.flags.writeable, x.shape, x.strides) for x in a], flags, "arguments-unchanged", function=name, layout=lab, what="flags")
                r2 = m.call(fn, *a, _mon="accepts-any-layout")
            m.same(norm(r2), norm(r1), "repetition-identical", function=name, layout=lab)
            m.state("function and layout", (name, tuple(sorted(set(lab)))))
            if base is None:
                base = r1
            else:
                flat_close(m, r1, base, "layout-does-not-matter", function=name, layout=lab)


def u_containers(m, rng, i):
    """Lists and dictionaries given to constructors and functions stay what they are."""
    gp = gen.pick(rng, [None, None, 'QuasiPer', 'SqExp', 'Per', 'Celerite'])
    s = gen.system(radvel, rng, npl=int(rng.integers(1, 3)), gp=gp, insts=['k', 'j'], linear=False, nobs=10)
    given = {'letters': {1: 'x', 2: 'q'}, 'hnames': [s.hnames[q] for q in rng.permutation(len(s.hnames))], 'decorr': ['z', 'a'] if gp is None else [], 'vectors': {},
             'likes': [], 'upper': [.9, .8][:s.npl], 'names': sorted(s.P)[:2], 'labels': sorted(s.P)[:3], 'comps': ['trend', 'jit'], 'user': ['jit_k', 'jit_j'], 'ts': None}
    if gp is None:
        given['vectors'] = {d: rng.normal(size=10) for d in ('unused', 'z', 'a')}

    def snap():
        return {k: (repr(v) if k != 'likes' else [id(x) for x in v]) for k, v in given.items()}
    P = radvel.Parameters(s.npl, basis=s.basis, planet_letters=given['letters'])
    for k, p in s.P.items():
        P[k] = copy.deepcopy(p)
    mod = radvel.RVModel(P, time_base=s.time_base)
    for k in ('k', 'j'):
        t, y, e, dv = s.data[k]
        w = snap()
        if gp == 'Celerite':
            L = m.call(radvel.likelihood.CeleriteLikelihood, mod, t, y, e, given['hnames'], suffix='_' + k)
        elif gp:
            L = m.call(radvel.likelihood.GPLikelihood, mod, t, y, e, hnames=given['hnames'], suffix='_' + k, kernel_name=gp)
        else:
            L = m.call(radvel.likelihood.RVLikelihood, mod, t, y, e, suffix='_' + k, decorr_vars=given['decorr'], decorr_vectors=given['vectors'])
        m.same(snap(), w, "containers-unchanged", what="likelihood")
        given['likes'].append(L)
    w = snap()
    L = m.call(radvel.likelihood.CompositeLikelihood, given['likes'])
    m.same(snap(), w, "containers-unchanged", what="composite")
    post = radvel.posterior.Posterior(L)
    vals = rng.normal(size=(2, 40)); v0 = vals.copy()
    post.priors += [rp.EccentricityPrior(s.npl, given['upper'] if rng.random() < .8 else .9), rp.UserDefinedPrior(given['user'], lambda p: -abs(p[0] - p[1]), 'u'),
                    rp.NumericalPrior(given['names'], vals)]
    m.same(snap(), w, "containers-unchanged", what="priors")
    m.check(np.array_equal(vals, v0), "containers-unchanged", what="samples of a numerical prior")
    with np.errstate(all='ignore'), silent(), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        for what, f in [('logprob', post.logprob), ('labels', lambda: P.tex_labels(given['labels'])), ('text', lambda: repr(post)), ('bic', post.bic), ('residuals', L.residuals),
                        ('copy', lambda: copy.deepcopy(post).logprob()), ('names', post.name_vary_params), ('repr of priors', lambda: [str(q) + repr(q) for q in post.priors]),
                        ('predict', lambda: given['likes'][0].predict(s.data['k'][0]) if gp else None)]:
            try:
                f()
            except Exception as e:
                m.state("raised", (what, type(e).__name__, str(e)[:60]))
            m.same(snap(), w, "containers-unchanged", what=what)
    # lists handed out may be kept and changed by their owner
    for f in (post.name_vary_params, post.list_vary_params, L.list_vary_params, lambda: given['likes'][0].list_vary_params()):
        g = f()
        if g is None:
            continue
        a = list(g)
        if isinstance(g, list):
            g.append('nonsense'); g.reverse()
            m.same(list(f()), a, "returned-lists-are-the-callers")
    x = post.get_vary_params()
    a = np.array(x, dtype=float)
    lp = post.logprob_array(a.copy())
    try:
        x[:] = 0
    except ValueError:
        pass
    m.same(norm(np.array(post.get_vary_params(), dtype=float)), norm(a), "returned-lists-are-the-callers", what="values")
    with np.errstate(all='ignore'), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        v = mod(s.data['k'][0]); w1 = v.copy(); v[:] = 5
        m.same(norm(mod(s.data['k'][0])), norm(w1), "returned-lists-are-the-callers", what="velocities")
        if not gp:
            v = L.residuals(); w1 = v.copy(); v[:] = 5
            m.same(norm(L.residuals()), norm(w1), "returned-lists-are-the-callers", what="residuals")
        V = post.vector.vector.copy()
        for f in (P.basis.v_to_synth, lambda q: P.basis.v_from_synth(P.basis.v_to_synth(q), gen.pick(rng, ref.BASES))):
            v = f(post.vector)
            if isinstance(v, np.ndarray):
                v[:] = 5
                m.same(norm(post.vector.vector), norm(V), "returned-lists-are-the-callers", what="converted vector")
        v = L.errorbars(); w1 = v.copy(); v[:] = 5
        m.same(norm(L.errorbars()), norm(w1), "returned-lists-are-the-callers", what="errors")
    m.state("kinds", (gp, s.basis))


def flat_close(m, a, b, mon, **d):
    if isinstance(a, (list, tuple)):
        if m.same(len(a), len(b), mon, **d):
            for x, y in zip(a, b):
                flat_close(m, x, y, mon, **d)
    elif isinstance(a, pd.DataFrame):
        m.same(list(a.columns), list(b.columns), mon, **d)
        for c in a.columns:
            m.close(a[c].values, b[c].values, mon, rtol=1e-12, atol=1e-12, equal_nan=True, column=c, **d)
    elif isinstance(a, pd.Series):
        m.close(a.values, b.values, mon, rtol=1e-9, atol=1e-9, equal_nan=True, **d)
    elif isinstance(a, (bool, str, type(None))):
        m.same(a, b, mon, **d)
    elif np.asarray(a).dtype.kind in 'fiub':
        m.close(a, b, mon, rtol=1e-9, atol=1e-9, equal_nan=True, **d)
    else:
        m.same(norm(a), norm(b), mon, **d)


def u_seeded(m, rng, i):
    sd = int(rng.integers(2 ** 31))
    par = rng.random() < .4
    o = dict(nwalkers=16, nrun=int(rng.integers(20, 50)), ensembles=int(rng.integers(1, 4)), checkinterval=int(rng.integers(5, 20)), thin=int(rng.integers(1, 4)), minsteps=10,
             minpercent=1, headless=True, serial=not par)
    seed = int(rng.integers(2 ** 31))

    def once():
        r = np.random.default_rng(sd)
        s = gen.system(radvel, r, npl=int(r.integers(0, 2)), gp=None, vary=(1,), linear=False, nobs=12)
        post = radvel.posterior.Posterior(s.like)
        post.priors += [rp.HardBounds('jit_' + k, 0., 50.) for k in s.insts]
        free = post.name_vary_params()
        keep = set(r.permutation(free)[:6])
        for k in free:
            s.P[k].vary = k in keep
        post.vector.dict_to_vector()
        post.list_vary_params()
        np.random.seed(seed)
        with silent(), warnings.catch_warnings(), np.errstate(all='ignore'):
            warnings.simplefilter('ignore')
            try:
                return radvel.mcmc(post, **o), post
            except ValueError as ex:
                if 'NaN' in str(ex):        # an improper posterior whose amplitudes run away: not this property's matter
                    return None, post
                raise
    m.describe(options=o, seed=seed, system=sd)
    a, pa = m.call(once)
    if a is None:
        raise Skip("posterior undefined where the chain went")
    # unrelated work
    for _ in range(3):
        q = int(rng.integers(2 ** 31))
        alone(q, script(q, 10))
    if rng.random() < .5:
        r = np.random.default_rng(sd + 1)
        s = gen.system(radvel, r, npl=0, gp=None, vary=(1,), linear=False, nobs=12, insts=['j'], trend='none')
        with silent():
            radvel.mcmc(radvel.posterior.Posterior(s.like), nwalkers=12, nrun=30, ensembles=2, headless=True, serial=True)
        m.event("another run in between")
    b, pb = m.call(once)
    if not m.check(b is not None, "seeded-run-repeats", what="second run ends with NaN"):
        return
    m.same(list(a.columns), list(b.columns), "seeded-run-repeats", what="columns")
    m.check(a.equals(b), "seeded-run-repeats", shapes=(a.shape, b.shape))
    m.same(gen.snapshot(pa.params), gen.snapshot(pb.params), "seeded-run-repeats", what="parameters afterwards")
    m.event("parallel" if par else "serial")
    if rng.random() < .5:
        o['serial'] = not o['serial']
        c, pc = m.call(once)
        m.check(c is not None and a.equals(c), "serial-and-parallel-agree", shapes=(a.shape, getattr(c, 'shape', None)))


UNITS = [("seeded", u_seeded, 16, 120), ("process", u_process, 6, 40), ("threads", u_threads, 40, 400), ("interleave", u_interleave, 60, 700), ("arguments", u_arguments, 24, 300),
         ("containers", u_containers, 60, 800)]
REQUIRED = ["results-kept-stay-as-they-were", "repetition-identical", "interleaved-as-alone", "threads-as-alone", "other-process-same-results", "arguments-unchanged", "layout-does-not-matter", "process-state-untouched", "random-state-untouched", "containers-unchanged", "returned-lists-are-the-callers", "seeded-run-repeats", "serial-and-parallel-agree"]
