"""C17: command-line analyses in permitted and forbidden orders; every file they leave is compared with the others and with recomputed values."""
import os, sys
import numpy as np
import pandas as pd
import radvel, radvel.driver, radvel.fitting
from collections import OrderedDict
from decimal import Decimal
from .. import gen, ref, pipe
from ..pipe import Pipe, latex_standin
from ..chains import Recorder, silent
from ..core import Skip
from . import c23

ANCHORS = ["driver.py", "cli.py"]
RULE = ("Random histories of fit / mcmc / ns / derive / ic / table / plot / report commands (permitted and forbidden, repeated, with either sampler) on generated "
        "setup files with 0-2 planets, several instruments, every basis, trends, decorrelation, priors and uncertain stellar parameters.")
ASSUMPTIONS = ["all steps of an analysis are run from the same working directory", "logarithmic parameters have proper priors", "a LaTeX compiler is replaced by a stand-in that writes a PDF header",
               "an MCMC run improves the fit it starts from, which it may write to the fit's posterior file; deriving adds the derived table to posterior files"]
QS = [0.159, 0.5, 0.841]
ORDER = ["ns", "history"]
CASE_CPU_LIMIT = 240


def quantiles(df, cols):
    return np.array([[np.nanpercentile(df[c].values, 100 * q) for c in cols] for q in QS])


class Model:
    """What has been done so far."""
    def __init__(self):
        self.fit = self.mcmc = self.ns = False
        self.derived = None
        self.ic = False


def files_of(section):
    return {k: v for k, v in section.items() if k.endswith('file') or k.endswith('_plot') or k.endswith('_tex')}


def run(m, pp, md, sub, argv, allowed, own, keys=None, also_posts=()):
    """Runs one command and compares the files before and after. own: section it writes."""
    st0, t0 = pp.status(), pp.tree()
    posts0 = {sec: pp.post(sec) for sec in st0 if 'postfile' in st0[sec]}
    label = [sub] + [str(a) for a in argv]
    if not allowed:
        err = pp.cmd(sub, *argv)
        m.check(err is not None, "forbidden-step-refused", command=label, done=vars(md))
        m.check(pp.status() == st0, "refused-step-leaves-the-status", command=label)
        t1 = pp.tree()
        m.check(all(t1.get(f) == h for f, h in t0.items()), "refused-step-leaves-the-files", command=label, changed=[f for f, h in t0.items() if t1.get(f) != h])
        return False
    if not pp.must(sub, *argv):
        return False
    st, t = pp.status(), pp.tree()
    for sec, d in st.items():
        for k, v in files_of(d).items():
            m.check(os.path.isfile(v), "recorded-files-exist", section=sec, entry=k, file=v)
    for sec, d in st0.items():
        if sec == own:
            m.check(all(k in st[sec] for k in d), "earlier-entries-kept", section=sec, before=d, after=st.get(sec))
            if keys is not None:
                for k, v in files_of(d).items():
                    if k not in keys:
                        m.check(st[sec].get(k) == v and t.get(v) == t0.get(v), "products-of-other-steps-undamaged", command=label, section=sec, entry=k)
            continue
        d1 = dict(st.get(sec, {}))
        if sec == 'derive' and sub in ('mcmc', 'ns'):
            d1['run'] = d['run']       # may be marked as outdated
        m.check(d1 == d, "products-of-other-steps-undamaged", command=label, section=sec, before=d, after=st.get(sec))
        for k, v in files_of(d).items():
            if k == 'postfile' and sec in also_posts:
                a, b = posts0[sec], radvel.posterior.load(v)
                m.same(list(b.name_vary_params()), list(a.name_vary_params()), "products-of-other-steps-undamaged", command=label, section=sec)
                m.check(len(b.priors) == len(a.priors) and b.likelihood.y.shape == a.likelihood.y.shape and b.logprob() >= a.logprob() - 1e-6 * (1 + abs(a.logprob())),
                        "products-of-other-steps-undamaged", command=label, section=sec, before=a.logprob(), after=b.logprob())
                continue
            m.check(t.get(v) == t0.get(v), "products-of-other-steps-undamaged", command=label, section=sec, entry=k, file=v)
    return True


def check_fit(m, pp):
    p = pp.post('fit')
    P, post0 = pp.initial()
    start = post0.logprob()
    m.check(not start > p.logprob() + 1e-6 * (1 + abs(start)), "fit-file-holds-the-fit", start=start, fit=p.logprob())
    with silent():
        q = radvel.fitting.maxlike_fitting(post0, verbose=False)
    m.same(list(p.name_vary_params()), list(q.name_vary_params()), "fit-file-holds-the-fit")
    m.close(p.logprob(), q.logprob(), "fit-file-holds-the-fit", rtol=1e-6, atol=1e-3)
    v = {k: x.value for k, x in p.params.items()}
    for k, x in q.params.items():
        if not x.vary and not x.linear:
            m.check(v[k] == x.value, "fit-file-holds-the-fit", par=k, got=v[k], want=x.value)


def last_digit(x):
    """The unit of the last printed digit."""
    t = Decimal(str(x))
    t = t.quantize(Decimal(1)) if t == t.to_integral_value() else t.normalize()
    return 10. ** min(t.as_tuple().exponent, 0)


def orbits(v, basis):
    names = basis.split()
    per = v['per'] if 'per' in names else np.exp(v['logper'])
    k = v['k'] if 'k' in names else np.exp(v['logk'])
    if 'e' in names:
        e, w = v['e'], v['w']
    elif 'se' in names:
        e, w = v['se'] ** 2, v['w']
    else:
        a, b = ('secosw', 'sesinw') if 'secosw' in names else ('ecosw', 'esinw')
        e, w = (v[a] ** 2 + v[b] ** 2) if a[0] == 's' else np.hypot(v[a], v[b]), np.arctan2(v[b], v[a])
    tp = v['tp'] if 'tp' in names else np.array([float(ref.tp_from_tc(*x)) if x[2] < 1 else x[0] for x in zip(v['tc'], per, e, w)])
    return per, tp, e, w, k


def synth(pp, post, chains):
    """The chain's rows as orbits (reference conversion), one dictionary of arrays."""
    vals = {k: (chains[k].values if k in chains else np.full(len(chains), float(post.params[k].value))) for k in post.params}
    out = {}
    for n in range(1, pp.npl + 1):
        per, tp, e, w, k = orbits({x: vals['%s%d' % (x, n)] for x in pp.s.basis.split()}, pp.s.basis)
        out.update({'per%d' % n: per, 'tp%d' % n: tp, 'e%d' % n: e, 'w%d' % n: w, 'k%d' % n: k})
    for k in vals:
        if not (k[-1].isdigit() and k[:-1] in [x for b in ref.BASES for x in b.split()]):
            out[k] = vals[k]
    return out, vals


def check_sampler(m, pp, kind, fitpost, H=None, o=None):
    st = pp.status()[kind]
    post = pp.post(kind)
    ch = pp.table(kind)
    names = list(post.name_vary_params())
    fitnames = list(fitpost.name_vary_params())
    m.same(names, fitnames, "sampling-uses-the-posterior", kind=kind)
    cols = [c for c in ch.columns if not c.startswith('Unnamed')]
    m.same(sorted(cols), sorted(names + ['lnprobability']), "chain-file-columns", kind=kind)
    # rows carry the log-probability of the saved posterior
    q = pp.post(kind)
    for r in np.linspace(0, len(ch) - 1, 6).astype(int):
        m.close(ch['lnprobability'].iloc[r], q.logprob_array(ch[names].iloc[r].values.astype(float)), "chain-rows-carry-their-log-probability", rtol=1e-7, atol=1e-6, kind=kind)
    sm = pd.read_csv(st['summaryfile'], index_col=0)
    m.close(np.array(sm.index, float), QS, "summary-is-of-the-chain", rtol=1e-9)
    m.close(sm[names].values, quantiles(ch, names), "summary-is-of-the-chain", rtol=1e-9, atol=1e-12, kind=kind)
    # median, uncertainty and best values: rounded, in the synthetic basis
    sy, vals = synth(pp, post, ch)
    bs, _ = synth(pp, post, pd.DataFrame({k: [float(post.params[k].value)] for k in names}))
    best_synth = {k: x[0] for k, x in bs.items()}
    m.check(hasattr(post, 'medparams') and post.uparams is not None and set(post.medparams) == set(post.uparams) == set(post.maxparams) and set(sy) <= set(post.medparams),
            "posterior-file-holds-the-summary", kind=kind)
    for k in sy:
        if k in post.params and post.params[k].linear:
            continue        # set to its best value at every evaluation
        lo, med, hi = np.percentile(sy[k], [15.9, 50, 84.1])
        err = (hi - lo) / 2
        if not np.isfinite(err):
            continue
        scale = np.max(np.abs(sy[k])) * 1e-9
        if k[:2] == 'tp':
            per = np.median(sy['per' + k[2:]])
            if hi - lo > .9 * per or (sy['e' + k[2:]] >= 1).any():
                continue        # times of periastron modulo the period, none of unbound orbits
        if k[0] == 'w' and k[1:].isdigit() and (hi - lo) > 5:
            continue
        # two significant figures of the uncertainty, and the value to its last digit
        q = 10. ** (np.floor(np.log10(err)) - 1) if err > 0 else 0
        m.check(abs(post.uparams[k] - err) <= .5001 * q + scale, "posterior-file-holds-the-summary", kind=kind, par=k, got=post.uparams[k], want=err, what='uncertainty', quantiles=[lo, med, hi], basis=pp.s.basis, n=len(sy[k]))
        last = last_digit(post.uparams[k])
        for what, got, want in (('median', post.medparams[k], med), ('best', post.maxparams[k], best_synth[k])):
            m.check(abs(got - want) <= (.5001 * last if err > scale else 1e-6 * abs(want)) + scale, "posterior-file-holds-the-summary", kind=kind, par=k, got=got, want=want,
                    what=what, uncertainty=err)
    # the posterior itself is the best fit
    qq = pp.post(kind)
    best = qq.logprob()
    medx = quantiles(ch, names)[1]
    lm = qq.logprob_array(medx)
    m.check(not lm > best + 1e-6 * (1 + abs(best)), "posterior-file-is-the-best-fit", best=best, median=lm, kind=kind)
    top = ch['lnprobability'].max()
    m.check(best >= top - 1e-6 * (1 + abs(top)), "posterior-file-is-the-best-fit", best=best, chain=top, kind=kind)
    if kind == 'mcmc':
        tot, burn, thin = float(st['nsteps']), float(st['nburn']), o['thin']
        m.same(len(ch), int(np.ceil((tot - burn) / thin)), "status-counts-the-samples", nsteps=tot, nburn=burn, thin=thin)
        m.same([int(st['nensembles'])], [o['ensembles']], "status-counts-the-samples")
        m.check(float(st['maxsteps']) == o['nrun'] * int(st['nwalkers']) * o['ensembles'] and int(st['nwalkers']) >= o['nwalkers'], "status-counts-the-samples", status=st)
        # start
        v = {k: x.value for k, x in fitpost.params.items()}
        P, p0 = pp.initial()
        for h in H:
            if h['begins']:
                c = h['begins'][0][2]
                for j, k in enumerate(names):
                    f, s0 = v[k], p0.params[k].value
                    d, sd = np.mean(c[:, j]), np.std(c[:, j]) / np.sqrt(len(c))
                    if abs(f - s0) > 40 * sd + 1e-6 * abs(f):
                        m.check(abs(d - f) < .5 * abs(f - s0), "mcmc-starts-from-the-fit", par=k, fit=f, setup=s0, start=d, sd=sd)
        nw = int(st['nwalkers'])
        states = c23.sim_of(H, o, nw)
        m.check(bool(states), "steps-recorded", kind=kind)
        if states:
            z = states[-1]
            m.same([int(tot), int(burn)], [int(z['ncomplete']), int(z['nburn'])], "status-records-the-run")
            got = np.array([float(st[k]) for k in ('minafactor', 'maxarchange', 'mintz', 'maxgr')])
            want = np.array([z[k] for k in ('minafactor', 'maxarchange', 'mintz', 'maxgr')], float)
            fin = np.isfinite(want)
            m.check(np.allclose(got[fin], want[fin], rtol=2e-3, atol=1e-6) and (got[~fin] == want[~fin]).all(), "status-records-the-convergence", got=got, want=want)
            au = pd.read_csv(st['autocorrfile'])
            a = np.array(z['autos']).reshape(-1, 4)
            for j, c in enumerate(('autosamples', 'automean', 'automin', 'automax')):
                m.check(len(au) == len(a) and np.allclose(au[c].values.astype(float), a[:, j], rtol=1e-4), "autocorrelation-file", column=c, got=au[c].values, want=a[:, j])
            rows = np.concatenate([h[::1].reshape(-1, len(names)) for h in z['hist']])
            have = set(map(bytes, np.round(rows, 9)))
            got = ch[names].values.astype(float)
            keys = set(map(lambda r: tuple(np.round(r, 7)), rows))
            sc = np.ptp(rows, axis=0) + 1e-300
            pick = got[np.linspace(0, len(got) - 1, 8).astype(int)]
            d = np.array([np.min(np.max(np.abs(rows - r) / (np.abs(r) + 1e-12), axis=1)) for r in pick])
            m.check((d < 1e-9).all(), "chain-file-holds-the-run", distance=d.max())
        # the fit's file was improved, not damaged
        fp = pp.post('fit')
        m.check(fp.logprob() >= fitpost.logprob() - 1e-6 * (1 + abs(fitpost.logprob())), "fit-not-worsened")
    m.state("chain", (kind, len(names), len(ch) > 100))


def check_derived(m, pp, kind):
    st = pp.status()['derive']
    d = pd.read_csv(st['chainfile'])
    ch = pp.table(kind)
    post = pp.post(kind)
    sy, vals = synth(pp, post, ch)
    want_cols = []
    rp = pp.planet or {}
    for n in range(1, pp.npl + 1):
        want_cols += ['mpsini%d' % n, 'a%d' % n, 'musini%d' % n] + (['rhop%d' % n] if 'rp%d' % n in rp else [])
    m.same(sorted(c for c in d.columns if not c.startswith('Unnamed')), sorted(want_cols), "derived-columns")
    if not m.check(len(d) == len(ch), "derived-row-by-row", got=len(d), want=len(ch)):
        return
    ms, mse = pp.stellar['mstar'], pp.stellar['mstar_err']
    first = None
    for n in range(1, pp.npl + 1):
        per, e, k = sy['per%d' % n], sy['e%d' % n], sy['k%d' % n]
        ok = (e < 1) & (k > 1e-30) & (per > 0)
        if not ok.any():
            continue
        mp, a, mu = [d['%s%d' % (x, n)].values for x in ('mpsini', 'a', 'musini')]
        # the star's mass of each row, from Kepler's third law and the mass ratio: Mtot = M (1 + mu)
        with np.errstate(all='ignore'):
            mtot = 4 * np.pi ** 2 * (a * pipe.AU) ** 3 / (pipe.G * (per * pipe.DAY) ** 2) / pipe.MSUN
            mass = mtot / (1 + mu)
        if mse == 0:
            m.close(mass[ok], np.full(ok.sum(), ms), "derived-from-the-row", rtol=3e-4, what='semi-major axis', planet=n)
        else:
            z = (mass[ok] - ms) / mse
            if ms > 5 * mse:
                m.check(np.abs(z).max() < 6.5 and abs(z.mean()) < 6 / np.sqrt(len(z)) and .6 < z.std() < 1.5 or len(z) < 30, "stellar-mass-distribution", mean=z.mean(), std=z.std(), n=len(z))
        m.close(mu[ok], mp[ok] * pipe.MEARTH / (mass[ok] * pipe.MSUN), "derived-from-the-row", rtol=1e-3, what='mass ratio', planet=n)
        # two-body equation: mp sin i / (M + mp)^(2/3) = K sqrt(1-e^2) (P / 2 pi G)^(1/3)
        f = k * np.sqrt(np.maximum(1 - e ** 2, 0)) * (per * pipe.DAY / (2 * np.pi * pipe.G)) ** (1 / 3.)
        x = f / (mass * pipe.MSUN) ** (1 / 3.)
        approx = x * mass * pipe.MSUN
        q = x.copy()
        for _ in range(60):
            q = x * (1 + q) ** (2 / 3.)
        exact = q * mass * pipe.MSUN
        lo, hi = np.minimum(approx, exact) * (1 - 1.5e-3), np.maximum(approx, exact) * (1 + 1.5e-3)
        g = mp * pipe.MEARTH
        m.check(((g >= lo) & (g <= hi))[ok].all(), "derived-from-the-row", what='minimum mass', planet=n, got=g[ok][:3], lo=lo[ok][:3], hi=hi[ok][:3])
        if first is None:
            first = (mass, ok)
        else:
            both = ok & first[1]
            m.close(mass[both], first[0][both], "one-star-per-row", rtol=1e-3, planet=n)
        if 'rp%d' % n in rp:
            rho = d['rhop%d' % n].values
            rad = (np.abs(mp / (rho / 5.51342)) ) ** (1 / 3.)
            r0, re = rp['rp%d' % n], rp['rp_err%d' % n]
            if re == 0:
                m.close(rad[ok], np.full(ok.sum(), r0), "derived-from-the-row", rtol=5e-3, what='density', planet=n)
            elif len(rad) >= 30 and r0 > 4 * re:
                z = (rad[ok] - r0) / re
                m.check(np.abs(z).max() < 7 and abs(z.mean()) < 6 / np.sqrt(len(z)) + .1 and .5 < z.std() < 1.6, "radius-distribution", mean=z.mean(), std=z.std())
    qf = pd.read_csv(st['quantfile'], index_col=0)
    m.close(np.array(qf.index, float), QS, "derived-summary-is-of-the-derived-chain", rtol=1e-9)
    m.close(qf[want_cols].values, quantiles(d, want_cols), "derived-summary-is-of-the-derived-chain", rtol=1e-8)
    m.check(hasattr(post, 'derived') and sorted(post.derived.columns) == sorted(want_cols), "posterior-file-holds-the-derived-summary")
    if hasattr(post, 'derived'):
        m.close(post.derived[want_cols].values, qf[want_cols].values, "posterior-file-holds-the-derived-summary", rtol=1e-8)


def read_ic(text):
    return eval(text, {'np': np, 'inf': np.inf, 'nan': np.nan, 'OrderedDict': OrderedDict, 'array': np.array})


def same_models(m, got, want, mon, **d):
    key = lambda r: (sorted(map(str, r['Free Params'][0])), r[r'$N_{\rm free}$'][0])
    m.same([key(r) for r in got], [key(r) for r in want], mon, **d)
    if len(got) == len(want):
        for a, b in zip(got, want):
            for k in b:
                if k != 'Free Params' and isinstance(b[k][0], (int, float, np.number)):
                    m.check(a[k][0] == b[k][0] or abs(a[k][0] - b[k][0]) <= .011 * (1 + abs(b[k][0]) * .01) or (np.isnan(a[k][0]) and np.isnan(b[k][0])), mon, entry=k, got=a[k][0], want=b[k][0], **d)


def plot_file(m, pp, key):
    f = pp.status()['plot'].get(key)
    ok = f is not None and os.path.isfile(f) and open(f, 'rb').read(5) == b'%PDF-'
    m.check(ok, "plot-files-are-documents", entry=key, file=f)


def mcmc_options(rng, nens=None):
    return dict(nwalkers=int(gen.pick(rng, [4, 8, 14])), nrun=int(gen.pick(rng, [50, 60, 100, 110])), ensembles=nens or int(gen.pick(rng, [1, 2, 3])), checkinterval=50,
                thin=int(gen.pick(rng, [1, 1, 3])), burnGR=float(gen.pick(rng, [1.0, 1.5, 5.])), burnAfactor=float(gen.pick(rng, [1e9, 25, 1.])), maxGR=float(gen.pick(rng, [1.01, 50.])),
                minTz=int(gen.pick(rng, [0, 1000])), minAfactor=float(gen.pick(rng, [0, 40])), maxArchange=float(gen.pick(rng, [.03, 100.])), minsteps=int(gen.pick(rng, [0, 50, 1000])),
                minpercent=float(gen.pick(rng, [0, 5, 60])))


def mcmc_args(o):
    a = ['--nsteps', o['nrun'], '--nwalkers', o['nwalkers'], '--nensembles', o['ensembles'], '--thin', o['thin'], '--headless']
    for k in ('burnGR', 'burnAfactor', 'maxGR', 'minTz', 'minAfactor', 'maxArchange', 'minsteps', 'minpercent'):
        a += ['--' + k, o[k]]
    return a


def do_mcmc(m, pp, md, rng, tag):
    fitpost = pp.post('fit')
    o = mcmc_options(rng)
    ev = os.path.join(pp.root, "events%s" % tag)
    R = Recorder(ev)
    serial = ['--serial', 'True'] if o['ensembles'] == 1 or rng.random() < .6 else []
    with R:
        ok = run(m, pp, md, 'mcmc', mcmc_args(o) + serial, True, 'mcmc', also_posts=('fit',))
    H = R.history()
    os.remove(ev)
    if not ok:
        return False
    md.mcmc = True
    if md.derived == 'mcmc':
        md.derived = None
    m.state("mcmc run", (o['ensembles'], o['thin'], o['nrun'], bool(serial)))
    check_sampler(m, pp, 'mcmc', fitpost, H, dict(o, serial=True))
    return True


NS_ARGS = ['--sampler', 'dynesty-static', '--sampler-kwargs', 'nlive=20', '--run-kwargs', 'dlogz=3.0 print_progress=False', '--overwrite']


def history(m, rng, i, ns):
    pp = Pipe(m, rng, i, ns=ns, npl=int(gen.pick(rng, [0, 1, 1, 1, 2, 2])) if not ns else 1)
    P, p0 = pp.initial()
    if not np.isfinite(p0.logprob()):
        raise Skip("start excluded")
    md = Model()
    comp = latex_standin(os.path.join(pp.root, 'latex.sh'))
    menu = ['fit', 'mcmc', 'derive', 'derive', 'ic', 'table', 'table', 'plot', 'plot', 'report'] + (['ns', 'ns'] if ns else [])
    n = int(rng.integers(9, 14)) if m.quick else int(rng.integers(12, 24))
    done = []
    # something forbidden first, then a useful beginning
    todo = [gen.pick(rng, ['mcmc', 'derive', 'ic', 'table', 'plot', 'report'])] + (['ns', 'fit'] if ns else ['fit']) + [gen.pick(rng, ['derive', 'plot', 'ic']), 'mcmc']
    while len(todo) < n:
        todo.append(gen.pick(rng, menu))
    nfit = nmc = 0
    derived0 = None
    for step, sub in enumerate(todo):
        kinds = [k for k in ('mcmc', 'ns') if getattr(md, k)]
        smp = gen.pick(rng, ['auto', 'auto', 'mcmc', 'ns'] if ns else ['auto', 'auto', 'mcmc', 'ns'] if rng.random() < .2 else ['auto', 'mcmc'])
        used = (kinds[0] if kinds else None) if smp == 'auto' else smp if smp in kinds else None
        sargs = [] if smp == 'auto' and rng.random() < .5 else ['--sampler', smp]
        if sub == 'fit':
            nfit += 1
            if nfit > 2:
                continue
            if run(m, pp, md, 'fit', [], True, 'fit'):
                md.fit = True
                check_fit(m, pp)
        elif sub == 'mcmc':
            nmc += 1
            if nmc > (3 if m.quick else 4):
                continue
            if not md.fit:
                run(m, pp, md, 'mcmc', mcmc_args(mcmc_options(rng)), False, 'mcmc')
            else:
                do_mcmc(m, pp, md, rng, step)
        elif sub == 'ns':
            if run(m, pp, md, 'ns', NS_ARGS, True, 'ns'):
                md.ns = True
                if md.derived == 'ns':
                    md.derived = None
                check_sampler(m, pp, 'ns', p0)
        elif sub == 'derive':
            ok = used is not None
            if run(m, pp, md, 'derive', sargs, ok, 'derive', also_posts=('mcmc', 'ns', 'fit')):
                first = md.derived == used
                md.derived = used
                check_derived(m, pp, used)
                t = open(pp.status()['derive']['quantfile'], 'rb').read()
                if first and derived0 is not None and pp.stellar['mstar_err'] == 0 and not any(v for k, v in (pp.planet or {}).items() if k.startswith('rp_err')):
                    m.check(t == derived0, "repeated-step-same-products", command='derive')
                derived0 = t
        elif sub == 'ic':
            types = sorted(set(gen.pick(rng, [['trend'], ['jit'], ['e'], ['trend', 'jit'], ['nplanets']])))
            mixed = bool(rng.random() < .6)
            simple = bool(rng.random() < .25)
            if pp.npl == 0:
                simple, types = True, ['trend']
            fj = bool(rng.random() < .3)
            a = ['-t'] + types + (['-m'] if mixed else ['-u']) + (['--simple'] if simple else []) + (['-f'] if fj else [])
            if run(m, pp, md, 'ic', a, md.fit, 'ic_compare'):
                md.ic = True
                got = read_ic(pp.status()['ic_compare']['ic'])
                f = pp.post('fit')
                if fj and not simple:
                    for k in f.params:
                        if k.startswith('jit'):
                            f.params[k].vary = False
                    f = radvel.posterior.load(pp.file('fit', 'postfile')) if False else f
                    f.vector.dict_to_vector(); f.list_vary_params(); f.likelihood.list_vary_params()
                with silent():
                    if simple:
                        want = radvel.fitting.model_comp(f, params=[])
                    elif mixed:
                        want = radvel.fitting.model_comp(f, params=types)
                    else:
                        want, seen = [], []
                        for t in types:
                            for r in radvel.fitting.model_comp(f, params=[t]):
                                k = sorted(map(str, r['Free Params'][0]))
                                if k not in seen:
                                    seen.append(k)
                                    want.append(r)
                same_models(m, got, want, "status-holds-the-comparison", types=types, mixed=mixed, simple=simple)
        elif sub == 'table':
            types = [str(x) for x in rng.permutation(['params', 'priors', 'rv', 'crit', 'derived', 'ic_compare'])[:int(rng.integers(1, 5))]]
            if rng.random() < .7:
                types = [t for t in types if (t != 'derived' or (used and md.derived == used)) and (t != 'ic_compare' or md.ic)] or ['params']
            ok = used is not None and all(t != 'derived' or md.derived == used for t in types) and all(t != 'ic_compare' or md.ic for t in types)
            if ok:
                if run(m, pp, md, 'table', ['-t'] + types + sargs, True, 'table', keys=[t + '_tex' for t in types]):
                    st = pp.status()['table']
                    text = {t: open(st[t + '_tex']).read() for t in types}
                    for t in types:
                        m.check(len(text[t]) > 40 and 'startdata' in text[t], "table-files-hold-tables", type=t)
                    if 'params' in text:
                        m.check(("%d links saved" % len(pp.table(used))) in text['params'], "tables-use-the-chain-of-the-sampler", sampler=used, want=len(pp.table(used)))
                    if rng.random() < .5 and pp.must('table', '-t', *(types[::-1] + sargs)):
                        for t in types:
                            m.check(open(pp.status()['table'][t + '_tex']).read() == text[t], "repeated-step-same-products", command='table', type=t, used=used)
            else:
                # whatever was written before the refusal belongs to the tables themselves
                err = pp.cmd('table', '-t', *(types + sargs))
                m.check(err is not None, "forbidden-step-refused", command=['table'] + types + sargs, done=vars(md))
        elif sub == 'plot':
            t = gen.pick(rng, ['rv', 'corner', 'auto', 'trend', 'derived'])
            ok = {'rv': md.fit, 'corner': md.fit and used is not None, 'auto': md.fit and used == 'mcmc', 'trend': md.fit and used == 'mcmc', 'derived': md.fit and md.derived is not None}[t]
            if t in ('corner', 'derived') and ok:
                names = pp.post(used or 'mcmc').name_vary_params() if t == 'corner' else []
                if t == 'derived' and pp.npl == 0:
                    continue
                if t == 'corner' and len(pp.table(used)) <= len(names) + 2:
                    continue
                if t == 'derived':
                    dd = pp.table('derive')
                    if len(dd) <= 8 or any(0 < np.ptp(dd[c].values) <= 1e-9 * np.abs(dd[c]).max() for c in dd if not c.startswith('Unn')):
                        continue
                if t == 'corner':
                    cc = pp.table(used)[list(names)]
                    if any(np.ptp(cc[c].values) <= 1e-10 * np.abs(cc[c]).max() for c in cc):
                        continue
            if t in ('auto',) and ok and len(pd.read_csv(pp.file('mcmc', 'autocorrfile'))) == 0:
                continue
            if t == 'rv' and pp.npl == 0:
                continue
            if run(m, pp, md, 'plot', ['-t', t] + (sargs if t != 'rv' else []), ok, 'plot', keys=[t + '_plot']):
                plot_file(m, pp, t + '_plot')
        elif sub == 'report':
            import tempfile
            old = tempfile.tempdir
            tempfile.tempdir = os.path.join(pp.root, 'tmp'); os.makedirs(tempfile.tempdir, exist_ok=True)
            bad = rng.random() < .15
            try:
                if run(m, pp, md, 'report', ['--latex-compiler', comp if not bad else '/nonexistent/latex'] + sargs, used is not None, 'report'):
                    base = os.path.join(pp.out, pp.name.split('.')[0] + '_results')
                    m.check(os.path.isfile(base + '.tex') and (bad or os.path.isfile(base + '.pdf')), "report-written")
                    tex = open(base + '.tex').read()
                    m.check(("%d links saved" % len(pp.table(used))) in tex, "report-uses-the-chain-of-the-sampler", sampler=used)
                    m.check(('Derived Posteriors' in tex) == (md.derived == used), "report-has-derived-parameters-of-its-chain", derived=md.derived, used=used)
                    m.check(('Model Comparison' in tex) == md.ic, "report-has-the-comparison", ic=md.ic)
                m.check(os.listdir(tempfile.tempdir) == [], "report-leaves-no-temporary-files", left=os.listdir(tempfile.tempdir))
            finally:
                tempfile.tempdir = old
        done.append(sub)
    m.state("histories", tuple(done))
    m.sample(done=done, free=pp.free, basis=pp.s.basis)


def u_history(m, rng, i):
    history(m, rng, i, False)


def u_ns(m, rng, i):
    history(m, rng, i, True)


UNITS = [("ns", u_ns, 6, 60), ("history", u_history, 40, 800)]
REQUIRED = ["permitted-step-runs", "forbidden-step-refused", "products-of-other-steps-undamaged", "recorded-files-exist", "summary-is-of-the-chain", "derived-from-the-row",
            "status-holds-the-comparison", "mcmc-starts-from-the-fit", "status-records-the-convergence", "report-written", "plot-files-are-documents",
            "chain-rows-carry-their-log-probability", "posterior-file-holds-the-summary", "repeated-step-same-products"]
