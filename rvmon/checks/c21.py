"""C21: the artists of every figure are read back and compared with the data, the model and the chains; nothing passed in changes."""
import copy, os, re
import numpy as np
import pandas as pd
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as pl
from matplotlib.backends.backend_pdf import PdfPages
from matplotlib.collections import PathCollection
from matplotlib.offsetbox import AnchoredText
import radvel
from radvel import plot, utils
from radvel.plot import orbit_plots, mcmc_plots
from .. import gen, ref, textab
from ..chains import silent

ANCHORS = ["plot/orbit_plots.py", "plot/mcmc_plots.py", "plot/__init__.py"]
RULE = ("Posteriors of 0-4 planets in every basis, 1-12 instruments (known and unknown names, custom formats), trends, decorrelation, marginalised offsets, four GP kernels with common and own "
        "hyperparameters, times near zero and at Julian dates; every option of the multi-panel plots; repeated drawing on the same and on new objects; chains of several ensembles and walkers, thinned; "
        "chains with constant, tiny, one-sided and huge columns.")
ASSUMPTIONS = ["phases count from conjunction or from periastron, the same in all of a panel", "times already reduced by an epoch are drawn as they are",
               "binned velocities are those of radvel.utils.fastbin on the drawn velocities (its binning is C18's)"]
REQUIRED = ["data-points-drawn", "error-bars-include-jitter", "model-curve-is-model", "residuals-drawn", "phase-folded", "phase-curve-is-model", "binned-points", "annotations", "labels-of-instruments",
            "axes-limits", "last-point-highlighted", "inputs-unchanged", "repeated-plot-identical", "panels", "gp-curve-and-band", "trend-plot-shows-the-chains", "corner-histograms", "corner-labels",
            "derived-units", "autocorrelation-plot", "models-drawn-from-rows", "returns-normally"]
CASE_CPU_LIMIT = 200


# ---- reading figures -------------------------------------------------------------------------------------------

class Err:
    pass


def errorbars(ax):
    out = []
    for c in ax.containers:
        if type(c).__name__ != 'ErrorbarContainer':
            continue
        e = Err()
        line, caps, bars = c.lines
        e.x, e.y = np.array(line.get_xdata(), float), np.array(line.get_ydata(), float)
        e.label, e.color, e.marker = c.get_label(), line.get_color(), line.get_marker()
        e.err = None
        if bars:
            s = np.array([b.get_segments() for b in bars][0], float).reshape(-1, 2, 2)
            e.err = (s[:, 1, 1] - s[:, 0, 1]) / 2
            e.mid = (s[:, 1, 1] + s[:, 0, 1]) / 2
            e.barx = s[:, 0, 0]
        out.append(e)
    return out


def lines(ax):
    """Lines that are not error bars' points or caps."""
    skip = set()
    for c in ax.containers:
        if type(c).__name__ == 'ErrorbarContainer':
            skip.add(id(c.lines[0]))
            skip |= {id(x) for x in c.lines[1]}
    return [(l.get_color(), l.get_linestyle(), l.get_marker(), np.array(l.get_xdata(), float), np.array(l.get_ydata(), float), l) for l in ax.lines if id(l) not in skip]


def texts(ax):
    return [a.txt.get_text() for a in ax.artists if isinstance(a, AnchoredText)]


def fingerprint(axes):
    """Everything a figure shows, as comparable values."""
    out = []
    for ax in axes:
        out.append((ax.get_xlim(), ax.get_ylim(), ax.get_xlabel(), ax.get_ylabel(), tuple(texts(ax)),
                    tuple((e.label, str(e.color), e.marker, e.x.tobytes(), e.y.tobytes(), None if e.err is None else e.err.tobytes()) for e in errorbars(ax)),
                    tuple((str(c), ls, str(mk), x.tobytes(), y.tobytes()) for c, ls, mk, x, y, _ in lines(ax)),
                    tuple(p.vertices.tobytes() for c in ax.collections for p in c.get_paths() if not hasattr(c, 'get_segments')),
                    tuple(t.get_text() for t in (ax.get_legend().get_texts() if ax.get_legend() else []))))
    return out


def is_curve(l):
    c, ls, mk, x, y, _ = l
    return matplotlib.colors.to_hex(c) == '#0000ff' and ls == '-' and len(x) > 100


# ---- the posterior's quantities ---------------------------------------------------------------------------------

class Truth:
    """Everything the plots have to show, from the generated data and reference formulas."""
    def __init__(self, s, vals):
        self.s, self.vals = s, vals
        self.t, self.tel, self.y, self.off, self.res, self.err, self.gp = [], [], [], [], [], [], []
        for i in s.insts:
            t, y, err, dv = s.data[i]
            mv, tol = ref.model_rv(vals, s.basis, s.npl, t, s.time_base)
            r = y - mv
            for d in s.decorr:
                r = r - vals['c1_%s_%s' % (d, i)] * (dv[d] - np.mean(dv[d]))
            var = err ** 2 + vals['jit_' + i] ** 2
            if s.linear[i] and not s.P['gamma_' + i].vary:
                g = np.sum(r / var) / np.sum(1 / var)
            else:
                g = vals['gamma_' + i]
            r = r - g
            gp = np.zeros(len(t))
            if s.gp:
                gp = self.predict(i, t, r=r)[0]
            self.t.append(t), self.tel.append(np.full(len(t), i)), self.y.append(y), self.res.append(r), self.err.append(np.sqrt(var)), self.gp.append(gp)
            self.off.append(mv)
        for k in ('t', 'tel', 'y', 'res', 'err', 'gp', 'off'):
            setattr(self, k, np.concatenate(getattr(self, k)))
        self.model = self.off

    def hyper(self, i):
        names = self.s.hnames[i] if isinstance(self.s.hnames, dict) else self.s.hnames
        return {re.sub('_%s$' % i, '', h) if isinstance(self.s.hnames, dict) else h: self.vals[h] for h in names}

    def predict(self, i, x, r=None):
        s = self.s
        t, y, err, dv = s.data[i]
        if r is None:
            r = self.res[self.tel == i]
        K = ref.kernel(s.gp, self.hyper(i), t, t) + np.diag(err ** 2 + self.vals['jit_' + i] ** 2)
        Ks = ref.kernel(s.gp, self.hyper(i), x, t)
        mu = Ks @ np.linalg.solve(K, r)
        k0 = ref.kernel(s.gp, self.hyper(i), np.zeros(1), np.zeros(1))[0, 0]
        var = k0 - np.sum(Ks * np.linalg.solve(K, Ks.T).T, axis=1)
        return mu, var

    def orbit(self, n):
        return ref.from_basis({k: self.vals['%s%d' % (k, n)] for k in self.s.basis.split()}, self.s.basis)

    def curve(self, x):
        return ref.model_rv(self.vals, self.s.basis, self.s.npl, x, self.s.time_base)

    def trend(self, x):
        d = x - self.s.time_base
        return float(self.vals.get('dvdt', 0)) * d + float(self.vals.get('curv', 0)) * d ** 2


def match(m, ebs, tel, x, y, err, mon, insts, labels=None, xtol=1e-7, errmon="error-bars-include-jitter", **kw):
    """The error bars drawn are these points, instrument by instrument."""
    if not m.same(len(ebs), len(insts), mon, what='groups of points', **kw):
        return
    left = list(ebs)
    scale = np.max(np.abs(y)) + np.max(err)
    for i in insts:
        sel = tel == i
        o = np.lexsort((y[sel], x[sel]))
        X, Y, E = x[sel][o], y[sel][o], err[sel][o]
        best = None
        for e in left:
            if len(e.x) != len(X):
                continue
            q = np.lexsort((e.y, e.x))
            d = np.max(np.abs(e.x[q] - X), initial=0)
            # equal times: order by velocity within rounding
            if d <= xtol and np.max(np.abs(e.y[q] - Y), initial=0) <= 1e-6 * scale:
                best = (e, q)
                break
        if not m.check(best is not None, mon, inst=i, want_x=X[:4], want_y=Y[:4], got=[(e.x[:3].tolist(), e.y[:3].tolist()) for e in left][:3], **kw):
            continue
        e, q = best
        left.remove(e)
        m.close(e.err[q], E, errmon, rtol=1e-6, atol=1e-9 * scale, inst=i, **kw)
        m.close(e.mid[q], e.y[q], errmon, rtol=1e-6, atol=1e-9 * scale, inst=i, what='centre')
        if labels is not None:
            m.same(e.label.split('\nRMS=')[0], labels[i], "labels-of-instruments", inst=i)
    return True


def expected_labels(insts, telfmts):
    out = {}
    for i in insts:
        f = telfmts.get(i, {}) if i in telfmts else plot.telfmts_default.get(i, {})
        d = plot.telfmts_default.get(i, {})
        out[i] = f.get('label', d.get('label', i))
    return out


UNKNOWN = ['spec%d' % n for n in range(14)]


def make_system(rng, gp=None, npl=None):
    known = ['j', 'k', 'a', 'hires_rj', 'harps', 'apf', 'harps-n']
    kind = int(rng.integers(5))
    if kind == 0:
        insts = [known[int(rng.integers(len(known)))]]
    elif kind == 1:
        insts = list(gen.pick(rng, [['a', 'ab'], ['ab', 'a'], ['j', 'j1'], ['j1', 'j'], ['x', 'x2', 'lick'], ['x2', 'lick', 'x'], ['harps-n', 'harps']]))
    elif kind == 2 and gp is None:
        insts = [UNKNOWN[j] for j in rng.permutation(14)][:int(rng.integers(2, 13))]
    else:
        pool = known[:4] + UNKNOWN[:3]
        insts = [pool[j] for j in rng.permutation(len(pool))][:int(rng.integers(1, 4))]
    npl = int(gen.pick(rng, [0, 1, 1, 2, 2, 3, 4])) if npl is None else npl
    letters = {n: str(x) for n, x in zip(range(1, npl + 1), rng.permutation(list('bcdefg')))} if npl and rng.random() < .3 else None
    s = gen.system(radvel, rng, npl=npl, gp=gp, insts=insts, emax=.7, letters=letters, nobs=int(gen.pick(rng, [4, 7, 9, 10, 11, 17, 20, 25])) if len(insts) < 4 else 4,
                   linear=False if gp else None, epoch=float(gen.pick(rng, [0., 2455000., 2455000., 7000.])))
    if gp and len(s.insts) > 1 and rng.random() < .5:
        own_hyper(rng, s)
    return s


def own_hyper(rng, s):
    P = radvel.Parameters(s.npl, basis=s.basis, planet_letters=s.P.planet_letters)
    for k, p in s.P.items():
        if k in s.hnames:
            for i in s.insts:
                P['%s_%s' % (k, i)] = radvel.Parameter(value=p.value * (1 + .2 * s.insts.index(i)), vary=p.vary)
        else:
            P[k] = p
    names = s.hnames
    s.P = P
    s.mod = radvel.RVModel(P, time_base=s.time_base)
    s.likes = []
    s.hnames = {i: ['%s_%s' % (h, i) for h in names] for i in s.insts}
    for i in s.insts:
        t, y, err, dv = s.data[i]
        if s.gp == 'Celerite':
            s.likes.append(radvel.likelihood.CeleriteLikelihood(s.mod, t, y, err, list(s.hnames[i]), suffix='_' + i))
        else:
            s.likes.append(radvel.likelihood.GPLikelihood(s.mod, t, y, err, hnames=list(s.hnames[i]), suffix='_' + i, kernel_name=s.gp))
    s.like = s.likes[0] if len(s.likes) == 1 else radvel.likelihood.CompositeLikelihood(s.likes)


def snapshot(post, *objs):
    v = post.likelihood.vector
    like = post.likelihood
    ll = like.like_list if hasattr(like, 'like_list') else [like]
    return (gen.snapshot(post.params), v.vector.tobytes(), tuple(v.names), tuple(repr(p) for p in post.priors), tuple(post.name_vary_params()),
            tuple((l.x.tobytes(), l.y.tobytes(), l.yerr.tobytes(), tuple(map(str, l.telvec))) for l in [like] + list(ll)),
            repr(sorted(vars(post).keys())), repr(getattr(post, 'medparams', None)), repr(getattr(post, 'uparams', None)),
            repr(sorted(plot.telfmts_default.items())), repr(plot.highlight_format), repr(objs))


def numbers(t):
    return [float(x) for x in re.findall(textab.NUM, t)]


def check_annotation(m, ax, T, n, uparams, med, derived=None):
    s = T.s
    per, tp, e, w, k = T.orbit(n)
    body = [t for t in texts(ax) if '\n' in t or '=' in t]
    if not m.check(len(body) == 1, "annotations", texts=texts(ax)):
        return
    rows = body[0].split('\n')
    letters = s.P.planet_letters
    m.same(len(rows), 3 + (derived is not None), "annotations", rows=rows)
    for row, (p, v, unit) in zip(rows, (('per', per, 'days'), ('k', k, 'm s'), ('e', e, ''))):
        left, _, right = row.partition('=')
        m.same(textab.canon(left.replace('$', '').replace('\\mathregular{', '', 1).strip()[:-1]), textab.label('%s%d' % (p, n), letters).replace('$', ''), "annotations", row=row)
        m.check(unit in right, "annotations", row=row, what='unit')
        nums = [float(x) for x in re.findall(textab.NUM, right.replace('{-1}', ''))]
        if uparams is None or uparams['%s%d' % (p, n)] <= 1e-15:
            want = med['%s%d' % (p, n)] if uparams is not None and med is not None else v
            m.check(len(nums) == 1 and abs(nums[0] - want) <= .00501 + 1e-9 * abs(want), "annotations", row=row, want=want)
        else:
            mv = med['%s%d' % (p, n)] if med is not None else v
            u = uparams['%s%d' % (p, n)]
            txt = re.findall(textab.NUM, right.replace('{-1}', ''))
            D = textab.decimals(txt[1]) if len(txt) > 1 else 0
            m.check(len(nums) == 2 and abs(nums[1] - u) <= .0501 * u and abs(nums[0] - mv) <= .5001 * 10. ** -D + 1e-9 * abs(mv), "annotations", row=row, want=(mv, u))
    if derived is not None and len(rows) == 4:
        lo, mid, hi, unit = derived
        nums = re.findall(textab.NUM, rows[3].partition('=')[2])
        L = (letters or {}).get(n, chr(97 + n))
        m.check(textab.canon('M_%s\\sin i' % L) in textab.canon(rows[3]) and textab.canon_unit(unit) in textab.canon_unit(rows[3].partition('=')[2]), "annotations", row=rows[3], unit=unit)
        err = ((mid - lo) + (hi - mid)) / 2
        D = textab.decimals(nums[1])
        m.check(abs(float(nums[1]) - err) <= .0501 * err + (.51 if D == 0 else 0) and abs(float(nums[0]) - mid) <= .5001 * 10. ** -D + 1e-9 * mid, "annotations", row=rows[3], want=(mid, err))


def check_phase(m, ax, T, n, o, res, nbinned):
    s, vals = T.s, T.vals
    orb = T.orbit(n)
    per, tp, e, w, k = orb
    alone, _ = ref.model_rv(vals, s.basis, s.npl, T.t, s.time_base, planets=[n], trend=False)
    y = res + alone
    ebs = errorbars(ax)
    binned = [b for b in ebs if b.color in ('r', 'red', (1.0, 0.0, 0.0, 1.0)) and b.label.startswith('_')]
    pts = [b for b in ebs if b not in binned]
    tc = float(ref.tc_from_tp(tp, per, e, w))
    names = s.basis.split()
    if 'tc' in names:
        tc = vals['tc%d' % n]
    scale = np.max(np.abs(y)) + np.max(T.err) + abs(k)
    best = None
    ptol = 1e-6 + 5e-9 * np.max(np.abs(T.t)) / per / 1e2
    for T0 in (tc, tp):
        ph = np.mod((T.t - T0) / per, 1.)
        # points at the seam may fall on either side
        seam = np.minimum(ph, 1 - ph) < ptol
        ok = True
        got = np.concatenate([np.column_stack([b.x, b.y]) for b in pts]) if pts else np.zeros((0, 2))
        if len(got) != 2 * len(ph):
            ok = False
        else:
            want = np.concatenate([np.column_stack([ph - 1, y]), np.column_stack([ph, y])])
            # match every wanted point to a drawn one with the same velocity
            d = np.abs(got[None, :, 1] - want[:, None, 1]) / scale + np.abs(np.mod(got[None, :, 0] - want[:, None, 0] + .5, 1) - .5)
            ok = bool((d.min(axis=1) < 2e-6 + ptol).all() and (d.min(axis=0) < 2e-6 + ptol).all())
            near = (np.abs(got[None, :, 0] - want[:, None, 0]) + np.abs(got[None, :, 1] - want[:, None, 1]) / scale).min(axis=1)
            ok = ok and bool((near[np.concatenate([~seam, ~seam])] < 2e-6 + ptol).all())
        if ok:
            best = T0
            break
    if not m.check(best is not None, "phase-folded", planet=n, basis=s.basis, npoints=[len(b.x) for b in pts], want=len(T.t) * 2):
        return
    ph = np.mod((T.t - best) / per, 1.)
    if not (np.minimum(ph, 1 - ph) < ptol).any():
        match(m, pts, np.concatenate([T.tel, T.tel]), np.concatenate([ph - 1, ph]), np.concatenate([y, y]), np.concatenate([T.err, T.err]), "phase-folded", s.insts, xtol=2e-6 + ptol, planet=n)
    cur = [l for l in lines(ax) if is_curve(l)]
    if m.same(len(cur), 1, "phase-curve-is-model", planet=n):
        x, v = cur[0][3], cur[0][4]
        want, tol = ref.rv(best + x * per, per, tp, e, w, k)
        slope = np.abs(ref.rv(best + (x + 1e-5) * per, per, tp, e, w, k)[0] - want) * 1e5
        m.close(v - want, np.zeros(len(v)), "phase-curve-is-model", rtol=0, atol=float(np.max(tol + slope * ptol + 1e-7 * k + 1e-12 * np.abs(T.trend(T.t)).max())), planet=n)
        lim = o['phase_limits'] or [-.5, .5]
        m.check(x.min() < -.45 and x.max() > .45, "phase-curve-is-model", planet=n, what='extent')
    m.close(ax.get_xlim(), o['phase_limits'] or [-.5, .5], "axes-limits", rtol=1e-9, panel='phase')
    want_bins = not o['nobin'] and len(T.t) >= 20
    if m.check((len(binned) == 1) == want_bins and len(binned) < 2, "binned-points", planet=n, drawn=len(binned), nobin=o['nobin'], ndata=len(T.t)) and want_bins:
        if not (np.minimum(ph, 1 - ph) < ptol).any() and (np.abs(ph * 25 - np.round(ph * 25)) > 1e-4).all():
            bx, by, be = utils.fastbin(np.concatenate([ph, ph + 1]), np.concatenate([y, y]), nbins=25)
            b = binned[0]
            if m.same(len(b.x), len(bx), "binned-points", planet=n):
                m.close(b.x, np.asarray(bx) - 1, "binned-points", rtol=0, atol=1e-6 + ptol, planet=n)
                m.close(b.y, by, "binned-points", rtol=1e-6, atol=1e-7 * scale, planet=n)
                m.close(b.err, be, "binned-points", rtol=1e-5, atol=1e-7 * scale, planet=n)
    if o['highlight_last']:
        j = int(np.argmax(T.t))
        hl = [l for l in lines(ax) if l[2] == 'o' and len(l[3]) == 1]
        p = np.mod((T.t[j] - best) / per, 1.)
        m.check(len(hl) == 1 and abs(np.mod(hl[0][3][0] - p + .5, 1) - .5) < 2e-6 + ptol and abs(hl[0][3][0]) <= .5 + 1e-9 and abs(hl[0][4][0] - y[j]) < 1e-6 * scale, "last-point-highlighted", panel='phase', planet=n)
    check_annotation(m, ax, T, n, o['uparams'], o['med'], o['derived'][n] if o['derived'] else None)


def shift_of(t, epoch):
    """What is subtracted from the times."""
    epoch = epoch or 2450000.
    if (t - epoch < -2.4e6).any():
        return 0.
    return epoch


def check_last(m, ax, T, shift, v, panel):
    j = int(np.argmax(T.t))
    hl = [l for l in lines(ax) if l[2] == 'o' and len(l[3]) == 1]
    scale = np.max(np.abs(v)) + 1e-9
    m.check(len(hl) == 1 and abs(hl[0][3][0] - (T.t[j] - shift)) < 1e-7 and abs(hl[0][4][0] - v[j]) < 1e-6 * scale, "last-point-highlighted", panel=panel)


def options(rng, s, T, m):
    o = dict(epoch=float(gen.pick(rng, [2450000, 2450000, 2454000, 0])), yscale_auto=bool(rng.random() < .3), legend=bool(rng.random() < .7), nobin=bool(rng.random() < .3),
             phase_limits=gen.pick(rng, [[], [], [-.2, .3]]), highlight_last=bool(rng.random() < .4), show_rms=bool(rng.random() < .3), set_xlim=None, telfmts={}, phase_ncols=gen.pick(rng, [None, None, 2]))
    o['epoch'] = int(o['epoch'])
    if rng.random() < .4:
        o['telfmts'] = {}
        for i in s.insts:
            if rng.random() < .6:
                f = dict(fmt=str(gen.pick(rng, ['o', 's', '^'])))
                if rng.random() < .5:
                    f['label'] = 'Label of ' + i
                if rng.random() < .5:
                    f['color'] = str(gen.pick(rng, ['cyan', 'navy', 'olive']))
                o['telfmts'][i] = f
    sh = shift_of(T.t, o['epoch'])
    if rng.random() < .25:
        a, b = np.sort(rng.uniform(T.t.min() - 30, T.t.max() + 30, 2)) - sh
        o['set_xlim'] = [float(a), float(b + 5)]
    return o, sh


def multipanel(m, rng, i, gp):
    s = make_system(rng, gp=gp)
    P = s.P
    post = radvel.posterior.Posterior(s.like)
    if rng.random() < .5:
        post.logprob()
    T = Truth(s, gen.values(P))
    o, sh = options(rng, s, T, m)
    uparams = med = None
    if s.npl and rng.random() < .6:
        uparams, med = {}, {}
        for n in range(1, s.npl + 1):
            for p, v in zip(('per', 'tp', 'e', 'w', 'k'), T.orbit(n)):
                uparams['%s%d' % (p, n)] = float(gen.pick(rng, [0., utils.round_sig(abs(v) * 10 ** rng.uniform(-5, -1)), utils.round_sig(abs(v) * .1)]))
                med['%s%d' % (p, n)] = float(v * (1 + rng.normal(0, .01)))
        if rng.random() < .7:
            post.medparams, post.uparams = med, uparams
        else:
            med = None
    o.update(uparams=uparams, med=med, derived=None)
    status = None
    if s.npl and not gp and rng.random() < .4:
        n0 = 120
        d = pd.DataFrame({'mpsini%d' % n: np.abs(10 ** rng.uniform(0, 3.5) * (1 + .1 * rng.normal(size=n0))) + 1e-3 for n in range(1, s.npl + 1)})
        f = os.path.join(m.scratch, 'derived%d.csv' % i)
        d.to_csv(f)
        post.derived = d.quantile([.159, .5, .841])
        post.derived.index = [.159, .5, .841]
        status = {'derive': {'chainfile': f}}
        o['derived'] = {}
        for n in range(1, s.npl + 1):
            v = d['mpsini%d' % n].values
            q, unit = np.percentile(v, [15.9, 50, 84.1]), 'M$_{\\oplus}$'
            if q[1] > 100:
                q, unit = q * 0.0031464, 'M$_{\\rm Jup}$'
            o['derived'][n] = (q[0], q[1], q[2], unit)
    kw = dict(epoch=o['epoch'], yscale_auto=o['yscale_auto'], legend=o['legend'], nobin=o['nobin'], phase_limits=o['phase_limits'], set_xlim=o['set_xlim'], telfmts=o['telfmts'],
              uparams=uparams, phase_ncols=o['phase_ncols'], status=status)
    if not gp:
        kw.update(highlight_last=o['highlight_last'], show_rms=o['show_rms'])
        cls = orbit_plots.MultipanelPlot
    else:
        o['highlight_last'] = o['show_rms'] = False
        cls = orbit_plots.GPMultipanelPlot
        kw.update(subtract_gp_mean_model=bool(rng.random() < .4), subtract_orbit_model=bool(rng.random() < .4), plot_likelihoods_separately=bool(rng.random() < .5),
                  separate_orbit_gp=bool(rng.random() < .2))
    nophase = bool(rng.random() < .25) or s.npl == 0
    pkw = dict(nophase=nophase)
    if not gp and rng.random() < .2:
        pkw['letter_labels'] = True
    if rng.random() < .15:
        kw['saveplot'] = os.path.join(m.scratch, 'rv%d.png' % i)
    m.describe(basis=s.basis, npl=s.npl, insts=s.insts, trend=s.trend, decorr=s.decorr, gp=gp, epoch=s.time_base, options={k: v for k, v in kw.items() if k != 'status'}, nophase=nophase, linear=s.linear)
    snap = snapshot(post, kw)
    lp = post.logprob() if not any(s.linear.values()) else None
    snap = snapshot(post, kw)
    with silent():
        mp = m.call(cls, post, **kw)
        m.check(snapshot(post, kw) == snap, "inputs-unchanged", what='construction')
        fig, axes = m.call(mp.plot_multipanel, **pkw)
    m.check(snapshot(post, kw) == snap, "inputs-unchanged", what='plot')
    F = fingerprint(fig.axes)
    m.check(all(a in fig.axes for a in axes), "panels", what='returned axes')
    separate = bool(gp) and kw['plot_likelihoods_separately']
    nts = len(s.insts) if separate else 1
    m.same(len(axes), nts + 1 + (0 if nophase else s.npl), "panels", nophase=nophase)
    labels = expected_labels(s.insts, o['telfmts'])
    res = T.res - T.gp
    # time series
    base = np.zeros(len(T.t)) if gp and kw['subtract_orbit_model'] else T.model
    gpm = np.zeros(len(T.t)) if not gp or kw['subtract_gp_mean_model'] else T.gp
    v = res + base + gpm
    for q, ax in enumerate(axes[:nts]):
        match(m, errorbars(ax), T.tel, T.t - sh, v, T.err, "data-points-drawn", s.insts, labels, panel=q)
        if not gp:
            cur = [l for l in lines(ax) if is_curve(l)]
            if m.same(len(cur), 1, "model-curve-is-model"):
                x, c = cur[0][3] + sh, cur[0][4]
                want, tol = T.curve(x)
                slope = np.abs(T.curve(x + 1e-6)[0] - want) * 1e6
                m.check((np.abs(c - want) <= tol * 4 + slope * 5e-9 + 1e-9 * np.abs(want) + 1e-7).all(), "model-curve-is-model", worst=np.max(np.abs(c - want)), at=x[int(np.argmax(np.abs(c - want)))])
                a, b = (T.t.min(), T.t.max()) if o['set_xlim'] is None else (o['set_xlim'][0] + sh, o['set_xlim'][1] + sh)
                m.check(x.min() <= a + 1e-6 and x.max() >= b - 1e-6, "model-curve-is-model", what='extent', got=(x.min(), x.max()), want=(a, b))
        else:
            check_gp(m, ax, s, T, kw, o, sh, [s.insts[q]] if separate else s.insts)
        if o['set_xlim'] is not None:
            m.close(ax.get_xlim(), o['set_xlim'], "axes-limits", rtol=1e-12, atol=1e-9, panel='time series')
        else:
            a, b = ax.get_xlim()
            m.check(a <= (T.t - sh).min() + 1e-9 and b >= (T.t - sh).max() - 1e-9, "axes-limits", panel='time series')
        if o['highlight_last']:
            check_last(m, ax, T, sh, v, 'time series')
        if o['legend'] and q == 0:
            leg = ax.get_legend()
            got = [t.get_text() for t in leg.get_texts()] if leg else []
            if o['show_rms']:
                want = []
                for inst in s.insts:
                    want.append('%s\nRMS=%.2f %s' % (labels[inst], np.std(T.res[T.tel == inst]), plot.latex['ms']))
                g = {re.sub(r'RMS=[\d.]+', 'RMS', t): float(re.search(r'RMS=([\d.]+)', t).group(1)) if 'RMS=' in t else None for t in got}
                ok = len(got) == len(want)
                if len(set(labels.values())) == len(labels):
                    for t in want:
                        x = g.get(re.sub(r'RMS=[\d.]+', 'RMS', t))
                        ok &= x is not None and abs(x - float(re.search(r'RMS=([\d.]+)', t).group(1))) < .0101
                m.check(ok, "labels-of-instruments", got=got, want=want, what='RMS')
            elif not gp:
                m.same(sorted(got), sorted(labels.values()), "labels-of-instruments", what='legend')
            else:
                m.check(sorted(t for t in got if t not in ('GP', 'Orbit', 'Orbit+GP')) == sorted(labels.values()), "labels-of-instruments", what='legend', got=got)
    # residuals
    ax = axes[nts]
    match(m, errorbars(ax), T.tel, T.t - sh, res, T.err, "residuals-drawn", s.insts, labels)
    zero = [l for l in lines(ax) if is_curve(l)]
    m.check(len(zero) == 1 and (zero[0][4] == 0).all(), "residuals-drawn", what='zero line')
    if o['set_xlim'] is not None:
        m.close(ax.get_xlim(), o['set_xlim'], "axes-limits", rtol=1e-12, atol=1e-9, panel='residuals')
    if o['highlight_last']:
        check_last(m, ax, T, sh, res, 'residuals')
    m.check(str(int(o['epoch'] or 2450000)) in ax.get_xlabel() or sh == 0, "axes-limits", what='epoch in label', label=ax.get_xlabel())
    if not nophase:
        for n in range(1, s.npl + 1):
            check_phase(m, axes[nts + n], T, n, o, res, None)
    m.state("multipanel", (s.basis, s.npl, len(s.insts), bool(gp), nophase, sh == 0))
    pl.close('all')
    # again, on this and on another object
    with silent():
        fig, axes = m.call(mp.plot_multipanel, **pkw)
        m.check(fingerprint(fig.axes) == F, "repeated-plot-identical", what='same object')
        pl.close('all')
        if rng.random() < .5:
            mp.plot_multipanel(nophase=not nophase or s.npl == 0)
            pl.close('all')
        fig, axes = m.call(m.call(cls, post, **kw).plot_multipanel, **pkw)
        m.check(fingerprint(fig.axes) == F, "repeated-plot-identical", what='new object')
        pl.close('all')
    m.check(snapshot(post, kw) == snap, "inputs-unchanged", what='repeated plots')
    if lp is not None:
        m.close(post.logprob(), lp, "inputs-unchanged", rtol=1e-12, what='log-probability')


def check_gp(m, ax, s, T, kw, o, sh, insts):
    ls = [l for l in lines(ax) if l[1] == '-' and len(l[3]) > 100]
    bands = [c for c in ax.collections if type(c).__name__ in ('PolyCollection', 'FillBetweenPolyCollection')]
    total = [l for l in ls if matplotlib.colors.to_hex(l[0]) == '#0000ff']
    if not (m.same(len(total), len(insts), "gp-curve-and-band", what='curves') and m.same(len(bands), len(insts), "gp-curve-and-band", what='bands')):
        return
    orange = [l for l in ls if matplotlib.colors.to_hex(l[0]) == matplotlib.colors.to_hex('orange')]
    green = [l for l in ls if matplotlib.colors.to_hex(l[0]) == matplotlib.colors.to_hex('g')]
    for j, i in enumerate(insts):
        t = s.data[i][0]
        x, c = total[j][3] + sh, total[j][4]
        sub = np.linspace(0, len(x) - 1, 150).astype(int)
        xs = x[sub]
        mu, var = T.predict(i, xs)
        orb = np.zeros(len(xs)) if kw['subtract_orbit_model'] else T.curve(xs)[0]
        slope = np.abs(T.curve(xs + 1e-5)[0] - T.curve(xs)[0]) * 1e5
        g = np.zeros(len(xs)) if kw['subtract_gp_mean_model'] else mu
        h = T.hyper(i)
        amp = h['gp_amp'] if 'gp_amp' in h else np.sqrt(h['gp_B'])
        scale = amp + np.max(np.abs(T.res[T.tel == i]))
        tol = 1e-5 * scale + slope * 1e-7 + (2e-3 * scale if s.gp == 'Celerite' else 0)
        ok = (np.abs(c[sub] - (g + orb)) <= tol).all()
        m.check(ok, "gp-curve-and-band", inst=i, what='curve', worst=np.max(np.abs(c[sub] - (g + orb)) - tol), kernel=s.gp)
        a, b = (t.min(), t.max()) if o['set_xlim'] is None else (o['set_xlim'][0] + sh, o['set_xlim'][1] + sh)
        m.check(x.min() <= a + 1e-6 and x.max() >= b - 1e-6, "gp-curve-and-band", inst=i, what='extent', got=(x.min(), x.max()), want=(a, b))
        V = bands[j].get_paths()[0].vertices
        n = len(x)
        # the outline runs along the lower edge and back along the upper one
        lowx, low = V[1:n + 1, 0], V[1:n + 1, 1]
        up = V[n + 2:2 * n + 2, 1][::-1]
        if np.allclose(lowx, total[j][3], rtol=0, atol=1e-9 * (1 + np.abs(lowx).max())) and len(up) == n:
            sd = (up - low)[sub] / 2
            mid = (up + low)[sub] / 2
            k0 = ref.kernel(s.gp, h, np.zeros(1), np.zeros(1))[0, 0]
            fin = np.isfinite(sd) & (var > 1e-6 * k0)
            m.check((np.abs(sd[fin] ** 2 - var[fin]) <= 1e-5 * k0 + (.01 * k0 if s.gp == 'Celerite' else 0) + 1e-4 * var[fin]).all(), "gp-curve-and-band", inst=i, what='width of band')
            m.check((np.abs(mid - c[sub])[fin] <= 1e-8 * (scale + np.abs(c[sub])[fin])).all(), "gp-curve-and-band", inst=i, what='centre of band')
        else:
            m.event("band not recognised")
        if kw['separate_orbit_gp']:
            m.check(len(orange) == len(insts) and len(green) == len(insts), "gp-curve-and-band", what='separate curves')
            if len(orange) == len(green) == len(insts) and not kw['subtract_gp_mean_model']:
                m.check((np.abs(orange[j][4][sub] - mu) <= tol).all() and (np.abs(green[j][4][sub] - orb) <= tol).all(), "gp-curve-and-band", what='separate curves', inst=i)


def u_multipanel(m, rng, i):
    multipanel(m, rng, i, None)


def u_gp(m, rng, i):
    multipanel(m, rng, i, str(gen.pick(rng, ['SqExp', 'QuasiPer', 'Per', 'Celerite'])))


# ---- chains ----------------------------------------------------------------------------------------------------

class Pages:
    """Figures saved to multi-page documents."""
    def __enter__(self):
        self.axes = []
        self.orig = PdfPages.savefig
        me = self

        def savefig(pdf, figure=None, **k):
            f = figure if figure is not None else pl.gcf()
            ax = f.axes[0]
            me.axes.append((ax.get_ylabel(), ax.get_xlim(), [(np.array(l.get_xdata(), float), np.array(l.get_ydata(), float), str(l.get_color())) for l in ax.lines]))
            return me.orig(pdf, figure, **k) if me.write else None
        self.write = False
        PdfPages.savefig = savefig
        return self

    def __exit__(self, *a):
        PdfPages.savefig = self.orig


def hist_of(ax):
    p = [q for q in ax.patches if type(q).__name__ == 'Polygon']
    return p[0].get_xy() if p else None


def check_corner(m, fig, df, names, labels, n):
    K = len(names)
    if not m.same(len(fig.axes), K * K, "corner-histograms", what='panels'):
        return
    ax = np.array(fig.axes).reshape(K, K)
    for j, c in enumerate(names):
        x = df[c].values
        xy = hist_of(ax[j, j])
        lo, hi = x.min(), x.max()
        if m.check(xy is not None, "corner-histograms", par=c) and hi > lo:
            m.close(ax[j, j].get_xlim(), [lo, hi], "corner-histograms", rtol=1e-7, atol=1e-7 * (hi - lo), par=c, what='range')
            # corner draws the histogram smoothed or not: its heights add up to the number of samples
            h, _ = np.histogram(x, bins=30, range=(lo, hi))
            got = xy[:, 1]
            steps = got[1:-1:2] if len(got) == 62 else None
            ok = steps is not None and np.array_equal(steps, h)
            m.check(ok, "corner-histograms", par=c, got=None if steps is None else steps[:8], want=h[:8], npoints=len(got))
        t = ax[j, j].get_title()
        nums = [float(v) for v in re.findall(textab.NUM, t.rsplit('=', 1)[1])] if '=' in t else []
        q = np.percentile(x, [16, 50, 84])
        m.check(len(nums) >= 3 and abs(nums[0] - q[1]) <= .00501 + 1e-9 * abs(q[1]) and abs(abs(nums[2]) - (q[2] - q[1])) <= .00501 + 1e-9 * abs(q[2]) and abs(abs(nums[1]) - (q[1] - q[0])) <= .00501 + 1e-9 * abs(q[0]),
                "corner-histograms", par=c, title=t, want=q.tolist())
        m.check(ax[K - 1, j].get_xlabel() == labels[j] and (j == 0 or ax[j, 0].get_ylabel() == labels[j]), "corner-labels", par=c, got=ax[K - 1, j].get_xlabel(), want=labels[j])


def u_chains(m, rng, i):
    npl = int(gen.pick(rng, [0, 1, 1, 2, 3]))
    letters = {n: str(x) for n, x in zip(range(1, npl + 1), rng.permutation(list('bcdefg')))} if npl and rng.random() < .4 else None
    s = gen.system(radvel, rng, npl=npl, letters=letters, nobs=6, insts=gen.pick(rng, [['j'], ['k', 'j'], ['hires_rj', 'x']]))
    post = radvel.posterior.Posterior(s.like)
    names = list(post.name_vary_params())
    if len(names) > 6:
        for k in names[6:]:
            s.P[k].vary = False
        post = radvel.posterior.Posterior(radvel.likelihood.CompositeLikelihood([gen.make_like(radvel, s, s.mod, q) for q in s.insts]) if len(s.insts) > 1 else gen.make_like(radvel, s, s.mod, s.insts[0]))
        names = list(post.name_vary_params())
    if len(names) < 2:
        m.event("too few free parameters")
        return
    nw, ne, ns = int(gen.pick(rng, [3, 4, 7])), int(gen.pick(rng, [1, 2, 3])), int(gen.pick(rng, [20, 33, 50]))
    thin = int(gen.pick(rng, [1, 1, 2, 3]))
    cube = {k: rng.normal(0, 10 ** rng.uniform(-4, 3), (nw, ne, ns)) + gen.pick(rng, [0., 100., -3.]) for k in names}
    # rows: walker, ensemble, step
    chains = pd.DataFrame({k: c.reshape(-1) for k, c in cube.items()})
    chains['lnprobability'] = -np.abs(rng.normal(0, 3, len(chains)))
    full = chains
    chains = chains.iloc[::thin].reset_index(drop=True)
    m.describe(names=names, npl=npl, basis=s.basis, walkers=nw, ensembles=ne, steps=ns, thin=thin, letters=letters)
    snap = (snapshot(post), chains.values.tobytes(), tuple(chains.columns))
    same = lambda: (snapshot(post), chains.values.tobytes(), tuple(chains.columns)) == snap
    tex = {k: v for k, v in post.params.tex_labels().items()}
    # trend plot
    f = os.path.join(m.scratch, 'trend%d.pdf' % i)
    kw = dict(nsteps=len(full)) if thin > 1 or rng.random() < .5 else {}
    shown = []
    for rep in range(2):
        with Pages() as pg, silent():
            m.call(m.call(mcmc_plots.TrendPlot, post, chains, nw, ne, f, **kw).plot)
        shown.append([(a, [(x.tobytes(), y.tobytes(), c) for x, y, c in b]) for a, _, b in pg.axes])
    pages = pg.axes
    m.check(shown[0] == shown[1], "repeated-plot-identical", what='trend')
    m.check(same(), "inputs-unchanged", what='trend plot')
    m.same(sorted(a for a, _, _ in pages), sorted(tex[k] for k in names), "trend-plot-shows-the-chains", what='pages')
    back = {tex[k]: k for k in names}
    rowid = np.arange(len(full)).reshape(nw, ne, ns)
    kept = np.arange(0, len(full), thin)
    for lab, xlim, L in pages:
        k = back.get(lab)
        if k is None:
            continue
        want = {}
        for w in range(nw):
            for e in range(ne):
                r = rowid[w, e]
                r = r[np.isin(r, kept)]
                want.setdefault(w, []).append(full[k].values[r])
        if not m.same(len(L), nw * ne, "trend-plot-shows-the-chains", par=k, what='number of chains'):
            continue
        # chains of one walker number share a color
        groups = {}
        for x, y, c in L:
            groups.setdefault(c, []).append(y)
            m.check(np.array_equal(x, np.arange(len(y))), "trend-plot-shows-the-chains", par=k, what='steps')
        got = sorted(tuple(sorted(tuple(y) for y in g)) for g in groups.values())
        exp = sorted(tuple(sorted(tuple(y) for y in g)) for g in want.values())
        m.check(got == exp, "trend-plot-shows-the-chains", par=k, walkers=nw, ensembles=ne, steps=ns, thin=thin)
        m.check(xlim[0] <= 0 and xlim[1] >= max(len(y) for x, y, c in L) - 1, "axes-limits", panel='trend')
    # corner plot
    f = os.path.join(m.scratch, 'corner%d.png' % i)
    order = [k for k in post.params if post.params[k].vary]
    fps = []
    for rep in range(2):
        with silent():
            m.call(m.call(mcmc_plots.CornerPlot, post, chains, saveplot=f).plot)
        fig = pl.gcf()
        if rep == 0:
            check_corner(m, fig, chains, order, [tex[k] for k in order], len(chains))
        fps.append([(a.get_title(), a.get_xlabel(), a.get_xlim(), None if hist_of(a) is None else hist_of(a).tobytes()) for a in fig.axes])
        pl.close('all')
    m.check(fps[0] == fps[1], "repeated-plot-identical", what='corner')
    m.check(same() and os.path.isfile(f), "inputs-unchanged", what='corner plot')
    m.state("chains", (len(names), nw, ne, thin))


def u_draw(m, rng, i):
    """Every drawn model is the model of one row."""
    s = gen.system(radvel, rng, emax=.6)
    names = [k for k in s.mod.list_vary_params()] if hasattr(s.mod, 'list_vary_params') else [k for k in s.P if s.P[k].vary]
    v = gen.values(s.P)
    nr = int(rng.integers(2, 30))
    ch = {}
    for k in s.P:
        if s.P[k].vary:
            sc = {'per': 1e-4, 'log': 1e-4}.get(k[:3], .02)
            ch[k] = v[k] * (1 + sc * rng.uniform(-1, 1, nr)) + (1e-3 if v[k] == 0 else 0) * rng.normal(size=nr)
    ch = pd.DataFrame(ch, index=range(nr)) if rng.random() < .6 else pd.DataFrame(ch, index=rng.permutation(nr) + 7)
    t = s.time_base + np.sort(rng.uniform(-50, 150, 12))
    n = int(rng.integers(1, 20))
    m.describe(basis=s.basis, npl=s.npl, free=list(ch.columns), rows=nr, draws=n)
    base, c0, t0 = gen.snapshot(s.mod.params), ch.copy(), t.copy()
    vec = s.mod.vector.vector.copy()
    rv0 = s.mod(t)
    with silent():
        a = m.call(utils.draw_models_from_chain, s.mod, ch, t, nsamples=n)
        b = m.call(utils.draw_models_from_chain, s.mod, ch, t, nsamples=n)
    m.check(gen.snapshot(s.mod.params) == base and ch.equals(c0) and np.array_equal(t, t0) and np.array_equal(vec, s.mod.vector.vector) and np.array_equal(s.mod(t), rv0), "inputs-unchanged", what='models from a chain')
    m.same(a, b, "repeated-plot-identical", what='models from a chain')
    if not m.same(a.shape, (n, len(t)), "models-drawn-from-rows"):
        return
    want = []
    for r in range(nr):
        vals = dict(v, **{k: float(ch[k].iloc[r]) for k in ch})
        x, tol = ref.model_rv(vals, s.basis, s.npl, t, s.time_base)
        want.append((x, tol))
    for row in a:
        ok = any((np.abs(row - x) <= tol * 5 + 1e-7 * (1 + np.abs(x))).all() for x, tol in want)
        m.check(ok, "models-drawn-from-rows", got=row[:4], rows=nr)
    if nr > 5 and n > 10 and len(ch.columns):
        m.check(len({r.tobytes() for r in a}) > 1 or all((w[0] == want[0][0]).all() for w in want), "models-drawn-from-rows", what='several rows')


class Config:
    pass


def u_gaps(m, rng, i):
    """Long derived chains with rows in which something is undefined."""
    u_derived(m, rng, i, True)


def u_derived(m, rng, i, gaps=False):
    npl = int(gen.pick(rng, [1, 1, 2, 3] if not gaps else [1, 1, 2]))
    P = Config()
    P.nplanets = npl
    letters = {n: chr(97 + n) for n in range(1, npl + 1)}
    if rng.random() < .6:
        letters = {n: str(x) for n, x in zip(range(1, npl + 1), rng.permutation(list('bcdefg')))}
        P.planet_letters = dict(letters)
    n = int(gen.pick(rng, [60, 200, 500, 2500, 12000] if not gaps else [300, 2500, 12000]))
    d, want = {}, []
    for q in range(1, npl + 1):
        L = letters[q]
        mass = np.abs(10 ** rng.uniform(-.5, 4) * (1 + .1 * rng.normal(size=n))) + 1e-3
        if rng.random() < .1:
            mass[:] = mass[0]
        d['mpsini%d' % q] = mass
        d['musini%d' % q] = rng.uniform(1e-6, 1e-3, n)
        if np.median(mass) > 100:
            want.append(('mpsini%d' % q, '$M_%s\\sin i$ [M$_{\\rm Jup}$]' % L, mass * 0.0031464))
        else:
            want.append(('mpsini%d' % q, '$M_%s\\sin i$ [M$_{\\oplus}$]' % L, mass))
        if not gaps and rng.random() < .6:
            d['rhop%d' % q] = 10 ** rng.uniform(-1, 1) * (1 + .1 * rng.normal(size=n))
            want.append(('rhop%d' % q, '$\\rho_%s$ [ g cm$^{-3}$]' % L, d['rhop%d' % q]))
        a = 10 ** rng.uniform(-2, 1) * (1 + .01 * rng.normal(size=n))
        if rng.random() < .15:
            a[:] = a[0]
        d['a%d' % q] = a
        want.append(('a%d' % q, '$a_%s$ [ AU]' % L, a))
    if gaps or rng.random() < .3:
        # undefined in some rows
        c = want[int(rng.integers(len(want)))][0]
        d[c] = d[c].copy()
        d[c][rng.integers(0, n, int(gen.pick(rng, [1, 1, 3, n // 2])))] = np.nan
        want = [w for w in want if w[0] != c]
    cols = list(d)
    ch = pd.DataFrame({cols[j]: d[cols[j]] for j in rng.permutation(len(cols))})
    m.describe(npl=npl, columns=list(ch.columns), letters=letters, rows=n)
    if not want:
        return
    c0 = ch.copy()
    p0 = repr(vars(P))
    f = os.path.join(m.scratch, 'derived%d.png' % i)
    fps = []
    for rep in range(1 if gaps else 2):
        with silent():
            dp = m.call(mcmc_plots.DerivedPlot, ch, P, saveplot=f)
            m.call(dp.plot)
        fig = pl.gcf()
        if rep == 0:
            df = pd.DataFrame({w[0]: w[2] for w in want})
            got = [re.sub(r'\s+', '', fig.axes[len(want) * (len(want) - 1) + j].get_xlabel()) for j in range(len(want))] if len(fig.axes) == len(want) ** 2 else None
            if m.same(got, [re.sub(r'\s+', '', w[1]) for w in want], "derived-units"):
                check_corner(m, fig, df, [w[0] for w in want], [fig.axes[len(want) * (len(want) - 1) + j].get_xlabel() for j in range(len(want))], n)
        fps.append([(a.get_title(), a.get_xlabel(), a.get_xlim(), None if hist_of(a) is None else hist_of(a).tobytes()) for a in fig.axes])
        pl.close('all')
    m.check(gaps or fps[0] == fps[1], "repeated-plot-identical", what='derived')
    m.check(ch.equals(c0) and repr(vars(P)) == p0, "inputs-unchanged", what='derived plot')
    m.state("derived", (npl, len(want)))


def u_auto(m, rng, i):
    n = int(gen.pick(rng, [1, 2, 6, 20]))
    N = np.cumsum(rng.integers(50, 500, n)).astype(float)
    mean = rng.uniform(5, 80, n)
    A = pd.DataFrame(dict(autosamples=N, automin=mean * rng.uniform(.3, 1, n), automean=mean, automax=mean * rng.uniform(1, 2, n), factor=float(gen.pick(rng, [0., 40., 75., 1.]))))
    A0 = A.copy()
    m.describe(n=n, factor=float(A['factor'][0]))
    f = os.path.join(m.scratch, 'auto%d.png' % i)
    for rep in range(2):
        with silent():
            m.call(m.call(mcmc_plots.AutoPlot, A, saveplot=f).plot)
        ax = pl.gcf().axes[0]
        sc = {c.get_label(): np.array(c.get_offsets(), float) for c in ax.collections if isinstance(c, PathCollection)}
        for word, col in (('Minimum', 'automin'), ('Mean', 'automean'), ('Maximum', 'automax')):
            got = [v for k, v in sc.items() if k.startswith(word)]
            if m.same(len(got), 1, "autocorrelation-plot", what=word):
                m.close(got[0], np.column_stack([N, A0[col].values]), "autocorrelation-plot", rtol=1e-12, what=word)
        L = [l for l in ax.lines]
        if m.same(len(L), 1, "autocorrelation-plot", what='criterion') and A0['factor'][0] > 0:
            m.close(np.column_stack([L[0].get_xdata(), L[0].get_ydata()]), np.column_stack([N, N / A0['factor'].values]), "autocorrelation-plot", rtol=1e-12, what='criterion')
            m.check(('N/%s' % A0['factor'][0]) in L[0].get_label(), "autocorrelation-plot", what='criterion', label=L[0].get_label())
        y0, y1 = ax.get_ylim()
        m.check(y0 <= A0['automin'].min() + 1e-9 and y1 >= A0['automax'].max() - 1e-9 or n == 1, "axes-limits", panel='auto', got=(y0, y1))
        pl.close('all')
    m.check(A.equals(A0), "inputs-unchanged", what='autocorrelation plot')


UNITS = [("multipanel", u_multipanel, 70, 900), ("gp", u_gp, 40, 500), ("chains", u_chains, 24, 200), ("draw", u_draw, 40, 400), ("gaps", u_gaps, 20, 100), ("derived", u_derived, 16, 160), ("auto", u_auto, 12, 60)]
