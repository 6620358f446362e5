"""C13: model comparison against an independent enumeration; every fit it performs is observed by a hook on the fitting routine."""
import collections, contextlib, copy, io, itertools, os, types
import numpy as np
from numpy import inf
import radvel
import radvel.driver, radvel.cli
from radvel import prior as rp
from .. import ref, gen, setups
from ..core import Skip

ANCHORS = ["fitting.py", "driver.py"]
RULE = ("Posteriors over random systems (0-3 planets, all bases, 1-3 instruments, trends, GPs with an amplitude) with random fixed/free patterns and priors "
        "(also ones that exclude the null values); every subset of comparison components in any order; repeated, chained and pre-filled calls; the "
        "command-line step with mixed, un-mixed, fixed-jitter and simple comparisons.")
ASSUMPTIONS = ["a component offers a choice where at least one of its parameters is free in the given posterior; trends are removed curvature first",
               "numbers of a row are rounded to two decimals"]
LNL = r'$\ln{\mathcal{L}}$'
NF, ND = r'$N_{\rm free}$', r'$N_{\rm data}$'


def build(rng, gp=None, nobs=None):
    npl = int(gen.pick(rng, [0, 1, 1, 2, 2, 3]))
    s = gen.system(radvel, rng, npl=npl, gp=gp, emax=.5, nobs=nobs or int(rng.integers(7, 14)), vary=(0,), linear=False if gp else None,
                   insts=['j'] if gp else gen.pick(rng, [['j'], ['k', 'j'], ['hires_rj', 'apf']]), trend=gen.pick(rng, ['none', 'both', 'both', 'dvdt', 'curv']),
                   decorr=gen.pick(rng, [[], [], ['airmass']]) if not gp else [], letters=gen.pick(rng, [None, {1: 'd', 2: 'b', 3: 'x'}]))
    P = s.P
    for n in range(1, npl + 1):
        names = [k + str(n) for k in s.basis.split()]
        free = gen.pick(rng, [[names[4]], [names[4]], [names[4]], [names[4], names[2], names[3]], [names[4], names[2]], [names[0]], [], [names[3]], names])
        for k in free:
            P[k].vary = True
    for k in P:
        if k in ('dvdt', 'curv'):
            P[k].vary = bool(rng.random() < .7)
        if k.startswith('gamma') and not P[k].linear:
            P[k].vary = bool(rng.random() < .6)
        if k.startswith('jit'):
            P[k].vary = bool(rng.random() < .5)
        if k.startswith('gp'):
            P[k].vary = bool(rng.random() < .4)
    s.mod.vector.dict_to_vector()
    for lk in s.likes:
        lk.list_vary_params()
    post = radvel.posterior.Posterior(s.like)
    v = gen.values(P)
    pri = []
    for k in P:
        if gen.marginalised(s, gen.varies(P), k[6:]) if k.startswith('gamma') else False:
            continue
        if k.startswith('gp'):
            pri.append("radvel.prior.HardBounds(%r, %r, %r)" % (k, 1e-3, 1e3))
        elif k.startswith('jit') and rng.random() < .6:
            pri.append("radvel.prior.Jeffreys(%r, 1e-3, 100.)" % k)
        elif k[0] == 'k' and k[1:].isdigit() and rng.random() < .4:
            pri.append("radvel.prior.Jeffreys(%r, 1e-3, 1e4)" % k)
        elif k in ('dvdt', 'curv') and rng.random() < .4:
            pri.append("radvel.prior.Gaussian(%r, %r, %r)" % (k, v[k], abs(v[k]) + 1e-3))
        elif k.startswith('gamma') and rng.random() < .2:
            pri.append("radvel.prior.Gaussian(%r, %r, 5.)" % (k, v[k]))
    if npl and rng.random() < .6:
        pri.append("radvel.prior.EccentricityPrior(%d)" % npl)
    if npl and rng.random() < .5:
        pri.append("radvel.prior.PositiveKPrior(%d)" % npl)
    pri = [pri[j] for j in rng.permutation(len(pri))]
    post.priors = [eval(t, {'radvel': radvel}) for t in pri]
    np.seterr(all='ignore')
    post.logprob()
    post.vector.vector_to_dict()
    if not np.isfinite(post.logprob()):
        raise Skip("start excluded")
    s.pri = pri
    return s, post


def eparams(basis):
    return basis.split()[2:4]


def options(s, vary, vals, comps):
    """The sub-models the components define: a list of {parameter: null value} together with the free names."""
    b = s.basis.split()
    axes = []
    if 'gp' in comps and s.gp and 'gp_amp' in s.hnames and any(vary[h] for h in s.hnames):
        axes.append([{}, dict({h: None for h in s.hnames}, gp_amp=0.)])
    if 'jit' in comps and any(vary[k] for k in vary if k.startswith('jit')):
        axes.append([{}, {k: 1e-6 for k in vary if k.startswith('jit') and vary[k]}])
    if 'trend' in comps:
        tr = [k for k in ('curv', 'dvdt') if vary.get(k)]
        axes.append([{k: 0. for k in tr[:n]} for n in range(len(tr) + 1)])
    for n in range(1, s.npl + 1):
        nm = {k: k + str(n) for k in b}
        ax = [{}]
        if 'nplanets' in comps and any(vary[nm[k]] for k in b):
            ax.append({nm[k]: (0. if k == 'k' else -inf if k == 'logk' else None) for k in b})
        if 'e' in comps and any(vary[nm[k]] for k in eparams(s.basis)):
            ax.append({nm[k]: 0. for k in eparams(s.basis)})
        axes.append(ax)
    out = []
    for combo in itertools.product(*axes):
        d = {}
        for c in combo:
            d.update(c)
        out.append(d)
    return out


def label_set(s, free, letters):
    lab = []
    kname, ename = s.basis.split()[4], s.basis.split()[2]
    L = letters or {n: chr(97 + n) for n in range(1, 10)}
    for n in range(1, s.npl + 1):
        if kname + str(n) in free:
            lab.append('$K_{%s}$' % L[n])
        if ename + str(n) in free:
            lab.append('$e_{%s}$' % L[n])
    if 'dvdt' in free: lab.append(r'$\dot{\gamma}$')
    if 'curv' in free: lab.append(r'$\ddot{\gamma}$')
    if any(f.startswith('jit') for f in free): lab.append(r'{$\sigma$}')
    for f in free:
        if f.startswith('gp_amp'):
            lab.append(r'GP$_{\rm %s}$' % f[6:].replace('_', ''))
    return sorted(lab)


class Hook:
    """Observe each call of the fitting routine: state at entry and exit."""
    def __init__(self):
        self.log = []

    def __enter__(self):
        self.orig = radvel.fitting.maxlike_fitting
        def wrapped(post, *a, **k):
            names = list(post.name_vary_params())
            enter = {n: float(post.vector.vector[post.vector.indices[n]][0]) for n in post.params}
            r = self.orig(post, *a, **k)
            self.log.append({'names': names, 'enter': enter, 'exit': {n: float(r.vector.vector[r.vector.indices[n]][0]) for n in r.params},
                             'names_exit': list(r.name_vary_params()), 'dict': gen.values(r.params), 'logprob': float(r.logprob()),
                             'prior': float(sum(p(r.params, r.vector) for p in r.priors))})
            return r
        radvel.fitting.maxlike_fitting = wrapped
        return self

    def __exit__(self, *a):
        radvel.fitting.maxlike_fitting = self.orig


def row_numbers(s, vals, free, vary):
    """ln L, BIC, AICc, RMS of the model at these values, from the definitions."""
    like = gen.loglike(s, vals, dict(vary))
    n, k = sum(len(s.data[i][0]) for i in s.insts), len(free)
    aicc = -2 * like + 2 * k + (2. * k * (k + 1) / (n - k - 1) if n - k - 1 > 0 else inf)
    return n, k, like, np.log(n) * k - 2 * like, aicc


def judge(m, s, post, rows, log, comps, start=0, where=""):
    vary, vals0 = gen.varies(post.params), gen.values(post.params)
    want = options(s, vary, vals0, comps)
    letters = post.params.planet_letters
    marg = [k for k in vary if k.startswith('gamma') and gen.marginalised(s, vary, k[6:])]
    m.same(len(rows), len(want), "as-many-models-as-defined", comps=comps, where=where)
    fit_of = {}
    # every fit is one of the models, every model is fitted once
    if len(log):
        unmatched = list(range(len(want)))
        for f in log:
            hit = None
            for j in unmatched:
                free = [k for k in vary if vary[k] and k not in want[j]]
                if sorted(f['names']) == sorted(free) and all(f['exit'][k] == (vals0[k] if v is None else v) for k, v in want[j].items()):
                    hit = j
                    break
            if not m.check(hit is not None, "every-fit-is-a-requested-model", free=f['names'], exit=f['exit'], comps=comps, want=want):
                continue
            unmatched.remove(hit)
            fit_of[hit] = f
            free = f['names']
            m.same(f['names_exit'], f['names'], "stated-parameters-free")
            for k in vary:
                if k in free or k in marg:
                    continue
                w = want[hit].get(k, vals0[k])
                w = vals0[k] if w is None else w
                m.same((f['enter'][k], f['exit'][k], f['dict'][k]), (w, w, w), "fixed-parameters-at-their-values", name=k)
            m.check(np.isfinite(f['prior']), "fit-is-not-excluded-by-priors", free=free, prior=f['prior'])
        m.same([want[j] for j in unmatched], [], "every-model-fitted-once", comps=comps)
    # numbers of the rows
    for j, r in enumerate(rows):
        n, k, L, b, a, rms = (r[q][0] for q in (ND, NF, LNL, 'BIC', 'AICc', 'RMS'))
        m.close(b, np.log(n) * k - 2 * L, "row-agrees-with-itself", rtol=0, atol=.0251, what='BIC')
        m.close(a, -2 * L + 2 * k + (2. * k * (k + 1) / (n - k - 1) if n - k - 1 > 0 else inf), "row-agrees-with-itself", rtol=0, atol=.0251, what='AICc')
        m.same(int(n), sum(len(s.data[i][0]) for i in s.insts), "row-counts-the-data")
    # rows against the fits: as multisets of (numbers)
    if len(log) == len(rows):
        def ident(free, nums):
            return tuple(label_set(s, free, letters)), nums
        left = list(range(len(rows)))
        for j, f in fit_of.items():
            def beyond(n):
                p = ref.from_basis({q: f['exit'][q + str(n)] for q in s.basis.split()}, s.basis)
                return not (0 < p[0] < 1e7 and 0 <= p[2] <= .98 and abs(p[4]) < 1e7)
            odd = any(beyond(n) for n in range(1, s.npl + 1))
            n, k, L, b, a = row_numbers(s, f['exit'], f['names'], vary)
            if odd or not np.isfinite(L) or max(abs(v) for v in f['exit'].values() if np.isfinite(v)) > 1e8:
                L = None
                m.event("fit ended outside of the model's range")
            lab = label_set(s, f['names'], letters)
            hit = None
            for q in left:
                r = rows[q]
                if sorted(r['Free Params'][0]) == lab and r[NF][0] == k and r[ND][0] == n and \
                        (L is None or (abs(r[LNL][0] - L) < .011 + 1e-6 * abs(L) and abs(r['BIC'][0] - b) < .011 + 1e-6 * abs(b)
                                       and (abs(r['AICc'][0] - a) < .011 + 1e-6 * abs(a) or (a == inf and r['AICc'][0] == inf)))):
                    hit = q
                    break
            if not m.check(hit is not None, "row-states-the-fitted-model", free=f['names'], labels=lab, want=[n, k, L, b, a],
                           rows=[{q: v[0] for q, v in r.items()} for r in rows][:6]):
                continue
            left.remove(hit)
            if L is not None:
                res = []
                for i in s.insts:
                    t, y, err, dv = s.data[i]
                    x = y - ref.model_rv(f['exit'], s.basis, s.npl, t, s.time_base)[0] - f['exit']['gamma_' + i]
                    for d in s.decorr:
                        x = x - f['exit']['c1_%s_%s' % (d, i)] * (dv[d] - np.mean(dv[d]))
                    res.append(x)
                if not s.gp or f['exit'].get('gp_amp', 1) == 0:
                    m.close(rows[hit]['RMS'][0], np.std(np.concatenate(res)), "row-states-the-fitted-model", rtol=1e-5, atol=.0055, what='RMS')
    return want


def snap(post):
    return (gen.snapshot(post.params), np.array(post.vector.vector).tolist(), list(post.name_vary_params()), [repr(p) for p in post.priors if not
            isinstance(p, rp.UserDefinedPrior)], len(post.priors), list(map(float, post.get_vary_params())))


def plain(rows):
    return [[(k, v[0]) for k, v in r.items()] for r in rows]


def comp(m, post, comps, mc=None, **kw):
    with contextlib.redirect_stdout(io.StringIO()):
        if mc is None:
            return m.call(radvel.fitting.model_comp, post, params=list(comps), **kw)
        return m.call(radvel.fitting.model_comp, post, params=list(comps), mc_list=mc, **kw)


def u_comp(m, rng, i):
    gp = gen.pick(rng, [None, None, None, 'SqExp', 'QuasiPer'])
    s, post = build(rng, gp)
    comps = [c for c in ('e', 'nplanets', 'trend', 'jit', 'gp') if rng.random() < .5]
    if gp and rng.random() < .7 and 'gp' not in comps:
        comps.append('gp')
    comps = [comps[j] for j in rng.permutation(len(comps))]
    n = len(options(s, gen.varies(post.params), gen.values(post.params), comps))
    if n > (12 if m.quick else 60):
        comps = comps[:1]
    m.describe(basis=s.basis, npl=s.npl, insts=s.insts, gp=gp, comps=comps, free=post.name_vary_params(), priors=s.pri)
    m.state("components", tuple(sorted(comps)))
    before = snap(post)
    with Hook() as h:
        rows = comp(m, post, comps, verbose=bool(rng.integers(2)))
    m.same(snap(post), before, "input-unchanged")
    first = plain(rows)
    judge(m, s, post, rows, h.log, comps)
    m.event("models", len(rows))
    m.state("number of models", len(rows))
    if not len(h.log):
        m.event("fits not observed")
    # the same call again, and a call with a list of its own
    how = gen.pick(rng, ['again', 'list', 'both'])
    if how in ('again', 'both'):
        rows2 = comp(m, post, comps)
        m.same(plain(rows2), first, "repeated-call-returns-the-same", comps=comps)
        m.same(plain(rows), first, "earlier-result-unchanged")
        m.check(rows2 is not rows, "earlier-result-unchanged", what="same list object")
    if how in ('list', 'both'):
        given = [dict(r) for r in rows[:2]]
        held = plain(given)
        rows3 = comp(m, post, comps, given)
        m.same(plain(rows3), held + first, "rows-are-appended-to-a-given-list")
    m.same(snap(post), before, "input-unchanged", rep=2)
    m.sample(models=len(rows), rows=[[str(r['Free Params'][0]), r['BIC'][0]] for r in rows[:3]])


def u_linear(m, rng, i):
    """Sub-models that are linear in their free parameters: each row must be the exact optimum."""
    basis = gen.pick(rng, [b for b in ref.BASES if 'logk' not in b.split()])
    s = gen.system(radvel, rng, npl=int(gen.pick(rng, [1, 2, 2])), basis=basis, emax=.5, nobs=int(rng.integers(12, 22)), vary=(0,), linear=False,
                   trend=gen.pick(rng, ['none', 'dvdt', 'both']), insts=gen.pick(rng, [['j'], ['k', 'j']]), decorr=[])
    P = s.P
    for k in P:
        if (k[0] == 'k' and k[1:].isdigit()) or k.startswith('gamma') or k in ('dvdt', 'curv'):
            P[k].vary = bool(rng.random() < .85)
    s.mod.vector.dict_to_vector()
    post = radvel.posterior.Posterior(s.like)
    comps = gen.pick(rng, [['nplanets'], ['nplanets', 'trend'], ['trend', 'nplanets'], ['trend'], []])
    vary, vals = gen.varies(P), gen.values(P)
    want = options(s, vary, vals, comps)

    def optimum(null):
        free = [k for k in vary if vary[k] and k not in null]
        base = dict(vals, **{k: v for k, v in null.items() if v is not None})
        base = dict(base, **{k: 0. for k in free})
        def mean(v):
            return np.concatenate([ref.model_rv(v, s.basis, s.npl, s.data[q][0], s.time_base)[0] + v['gamma_' + q] for q in s.insts])
        y = np.concatenate([s.data[q][1] for q in s.insts])
        w = np.concatenate([1 / (s.data[q][2] ** 2 + vals['jit_' + q] ** 2) for q in s.insts])
        m0 = mean(base)
        if free:
            D = np.array([mean(dict(base, **{k: 1.})) - m0 for k in free])
            F = (D * w) @ D.T
            sc = np.sqrt(np.diag(F))
            if np.linalg.cond(F / np.outer(sc, sc)) > 50:
                raise Skip("ill-posed")
            x = np.linalg.solve(F, (D * w) @ (y - m0))
            base = dict(base, **dict(zip(free, x)))
        return free, gen.loglike(s, base, vary)
    wl = [optimum(d) for d in want]
    m.describe(basis=basis, npl=s.npl, comps=comps, free=post.name_vary_params())
    rows = comp(m, post, comps)
    m.same(len(rows), len(want), "as-many-models-as-defined", comps=comps)
    left = list(rows)
    for free, L in wl:
        lab = label_set(s, free, None)
        hit = [r for r in left if sorted(r['Free Params'][0]) == lab and r[NF][0] == len(free) and -.03 * (1 + abs(L)) - .011 < r[LNL][0] - L < 1e-6 * abs(L) + .011]
        if m.check(len(hit) > 0, "row-is-the-exact-optimum-of-its-model", labels=lab, nfree=len(free), want=L, rows=plain(rows)):
            left = [r for r in left if r is not hit[0]]
    m.same(len(left), 0, "every-model-fitted-once")
    m.sample(rows=len(rows), lnL=[L for f, L in wl][:4])


def u_refuse(m, rng, i):
    s, post = build(rng)
    before = snap(post)
    m.raises(radvel.fitting.model_comp, post, params=[gen.pick(rng, ['planets', 'k', '', 'E', 'jitter', 'nplanets '])], _mon="unknown-components-refused")
    m.raises(radvel.fitting.model_comp, post, params=['e', 'bogus'], _mon="unknown-components-refused")
    m.raises(radvel.fitting.model_comp, s.mod, params=['e'], _mon="unknown-components-refused")
    m.same(snap(post), before, "input-unchanged", what="refused call")


def u_driver(m, rng, i):
    """The command-line step: what it leaves in the status file."""
    s, post = build(rng)
    d = os.path.join(m.scratch, "ic%d" % i)
    setup, df = setups.write(d, s, name="sys%d" % i, priors=s.pri, rng=rng, letters=s.P.planet_letters)
    pfile = os.path.join(d, "p.pkl")
    P0, post = radvel.utils.initialize_posterior(setup, decorr=bool(s.decorr))
    np.seterr(all='ignore')
    post.logprob()
    post.vector.vector_to_dict()
    s.time_base = post.likelihood.model.time_base
    post.writeto(pfile)
    stat = os.path.join(d, "sys%d_radvel.stat" % i)
    radvel.driver.save_status(stat, 'fit', {'run': True, 'postfile': pfile})
    argv = ['ic', '-s', setup, '-d', d]
    if s.decorr:
        argv.append('--decorr')
    comps = ['trend']
    if rng.random() < .85:
        comps = [c for c in ('e', 'nplanets', 'trend', 'jit', 'gp') if rng.random() < .4] or ['nplanets']
        comps = [comps[j] for j in rng.permutation(len(comps))]
        n = len(options(s, gen.varies(post.params), gen.values(post.params), comps))
        if n > 12:
            comps = comps[:1]
        argv += ['-t'] + comps
    mode = gen.pick(rng, ['mixed', '-m', '-u', '-u', '--simple', '-f', '-f', '-n'])
    if mode.startswith('-'):
        argv.append(mode)
    m.describe(argv=argv[5:], basis=s.basis, npl=s.npl, free=post.name_vary_params(), insts=s.insts)
    m.state("mode", mode)
    if mode == '--simple':
        comps = []
    data0 = open(pfile, 'rb').read()
    fits = []
    outs = []
    import sys as _sys
    for rep in range(2):
        old = _sys.argv
        _sys.argv = ['radvel'] + argv
        try:
            with Hook() as h, contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
                m.call(radvel.cli.main)
        finally:
            _sys.argv = old
        fits.append(h.log)
        st = radvel.driver.load_status(stat)
        m.check(st.has_option('ic_compare', 'ic'), "results-recorded")
        rows = m.call(eval, st.get('ic_compare', 'ic'), {'np': np, 'inf': inf, 'OrderedDict': collections.OrderedDict, 'nan': np.nan})
        outs.append(rows)
        m.same(st.get('fit', 'postfile'), pfile, "other-steps-untouched")
        m.check(open(pfile, 'rb').read() == data0, "saved-posterior-untouched")
    m.same(plain(outs[1]), plain(outs[0]), "repeated-call-returns-the-same", comps=comps, mode=mode)
    work = copy.deepcopy(post)
    if mode == '-f':
        for k in work.params:
            if k.startswith('jit'):
                work.params[k].vary = False
        work.vector.dict_to_vector()
        work.list_vary_params()
        work.likelihood.list_vary_params()
    rows = outs[0]
    if mode != '-u':
        judge(m, s, work, rows, fits[0], comps, where="driver")
    else:
        # one comparison per component, models that several comparisons share listed once
        vary, vals = gen.varies(work.params), gen.values(work.params)
        want, letters = [], work.params.planet_letters
        for c in comps:
            for o in options(s, vary, vals, [c]):
                if o not in want:
                    want.append(o)
        labs = [tuple(label_set(s, [k for k in vary if vary[k] and k not in o], letters)) for o in want]
        got = [tuple(sorted(r['Free Params'][0])) for r in rows]
        m.same(sorted(set(got)), sorted(set(labs)), "un-mixed-lists-each-model-once", comps=comps)
        m.same(sorted(set(got)), sorted(got), "un-mixed-lists-each-model-once", comps=comps, what="doubled")
        for r in rows:
            n, k, L, b, a = (r[q][0] for q in (ND, NF, LNL, 'BIC', 'AICc'))
            m.close(b, np.log(n) * k - 2 * L, "row-agrees-with-itself", rtol=0, atol=.0251, what='BIC')
    m.sample(rows=len(rows), mode=mode)


UNITS = [("comp", u_comp, 120, 1200), ("linear", u_linear, 40, 400), ("refuse", u_refuse, 8, 60), ("driver", u_driver, 40, 300)]
REQUIRED = ["as-many-models-as-defined", "row-agrees-with-itself", "input-unchanged", "repeated-call-returns-the-same",
            "row-is-the-exact-optimum-of-its-model", "rows-are-appended-to-a-given-list", "results-recorded"]
