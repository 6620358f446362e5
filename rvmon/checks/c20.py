"""C20: every number printed in tables and reports is read back and compared with the posterior, the data and the chain."""
import copy, io, os, re
from collections import OrderedDict
import numpy as np
import pandas as pd
import radvel, radvel.report
from radvel import utils
from .. import gen, ref, setups, textab, pipe
from ..chains import silent
from ..core import Skip
from ..textab import Table, cell, decimals

ANCHORS = ["report.py"]
RULE = ("Setup files of 0-3 planets in every basis with 1-4 instruments (names that are prefixes of each other, with digits and underscores), trends, decorrelation, GPs with common and "
        "own hyperparameters, custom letters, every kind of prior; synthetic chains whose columns have uncertainties over ten decades, one-sided, tiny and zero; up to 70 compared models with "
        "ties and infinite criteria; complete command-line analyses.")
ASSUMPTIONS = ["a value is printed to the last printed digit of its uncertainties; trailing zeros may be dropped", "angles and times of periastron are meant modulo a turn",
               "the comparison table shows the 50 best models", "at least one compared model has a finite AICc"]
REQUIRED = ["two-significant-figures", "value-to-the-uncertainty's-digits", "geterr-percentiles", "each-parameter-once", "row-shows-its-parameter", "fixed-parameters-as-fixed", "unit-matches",
            "each-observation-once", "each-prior-once", "models-sorted-once", "models-judged", "criteria-table", "derived-rows", "compiles", "report-contains-each-table", "inputs-unchanged",
            "repeated-generation-identical", "tables-of-the-pipeline"]


# ---- number formatting -----------------------------------------------------------------------------------------

def two_figures(x):
    """The interval of numbers that two significant figures of x may be."""
    if x == 0:
        return 0.
    return .5 * 10. ** (np.floor(np.log10(abs(x))) - 1)


def u_format(m, rng, i):
    m.describe(i=i)
    for _ in range(40):
        mag = 10. ** rng.uniform(-9, 7)
        lo = float(mag * gen.pick(rng, [1., .1, 3., 1.0000001]) * gen.pick(rng, [1., rng.uniform(.2, 1)]))
        hi = float(lo * gen.pick(rng, [1., 1., rng.uniform(.05, 20), 1e-3, 1e3]))
        med = float(rng.normal(0, 1) * mag * 10. ** rng.uniform(-3, 6))
        if rng.random() < .1:
            med = 0.
        if rng.random() < .1:
            med = float(np.round(med))
        rlo, rhi = m.call(utils.round_sig, lo), m.call(utils.round_sig, hi)
        for x, r in ((lo, rlo), (hi, rhi)):
            m.check(abs(r - x) <= two_figures(x) * 1.0001, "two-significant-figures", x=x, got=r)
            d = 10. ** (np.floor(np.log10(abs(r))) - 1)
            m.check(abs(r / d - np.round(r / d)) < 1e-6, "two-significant-figures", x=x, got=r)
        sig = int(rng.integers(1, 7))
        r = m.call(utils.round_sig, med, sig)
        if med:
            d = 10. ** (np.floor(np.log10(abs(med))) - sig + 1)
            m.check(abs(r - med) <= .50001 * d, "two-significant-figures", x=med, sig=sig, got=r)
        one = rng.random() < .3
        out = m.call(utils.sigfig, med, rlo) if one else m.call(utils.sigfig, med, rlo, rhi)
        if one:
            rhi = rlo
        v, a, b = out
        m.check(a == rlo and b == rhi or (max(decimals(str(a)), decimals(str(b))) == 0 and abs(a - rlo) < .51 and abs(b - rhi) < .51 and min(rlo, rhi) >= 1 or rlo < 1e-12),
                "value-to-the-uncertainty's-digits", uncertainties=(rlo, rhi), got=(a, b))
        D = max(0 if float(x).is_integer() else decimals(repr(float(x))) for x in (rlo, rhi))
        m.check(abs(v - med) <= .50001 * 10. ** -D + 1e-15 * abs(med), "value-to-the-uncertainty's-digits", med=med, uncertainties=(rlo, rhi), got=v)
        if abs(med) >= 10. ** -D:
            m.check(abs(v * 10. ** D - np.round(v * 10. ** D)) < 1e-6 * max(1, abs(v * 10. ** D)), "value-to-the-uncertainty's-digits", med=med, uncertainties=(rlo, rhi), got=v, what='excess digits')
        m.state("format", (D, rlo > rhi, rlo == rhi, abs(med) > hi))
    # percentiles
    n = int(rng.integers(30, 400))
    x = rng.normal(0, 1, n) * 10. ** rng.uniform(-6, 6) + rng.normal(0, 100)
    if rng.random() < .3:
        x = np.abs(x)
    for v in (x, pd.Series(x)):
        got = m.call(utils.geterr, v)
        s = np.sort(x)
        check_geterr(m, got, s, np.median(s))
        m.check(np.array_equal(np.asarray(v), x), "inputs-unchanged", what='geterr')
    # an angular distribution anywhere on the circle
    c = float(rng.uniform(-np.pi, np.pi))
    if rng.random() < .5:
        half = float(rng.uniform(.01, .7))
        d = np.clip(rng.normal(0, half / 3, n), -half, half)
    else:                                   # wide wings, with an unmistakable mode
        half = float(rng.uniform(.7, 1.35))
        if rng.random() < .7:               # just reaching over the branch cut
            c = float(gen.pick(rng, [-1, 1]) * (np.pi - half * rng.uniform(.7, 1)))
        d = np.where(rng.random(n) < .6, rng.uniform(-.05, .05, n), rng.uniform(-half, half, n))
    a = np.mod(c + d + np.pi, 2 * np.pi) - np.pi
    a0 = a.copy()
    got = m.call(utils.geterr, a, angular=True)
    m.check(np.array_equal(a, a0), "inputs-unchanged", what='geterr angular')
    s = np.sort(c + d)
    off = np.round((got[0] - np.median(s)) / (2 * np.pi)) * 2 * np.pi
    check_geterr(m, (got[0] - off, got[1], got[2]), s, np.median(s))
    m.state("angle", (round(c / .3), bool(np.ptp(a) > 4)))


def check_geterr(m, got, s, med):
    n = len(s)
    m.close(got[0], med, "geterr-percentiles", rtol=1e-9, atol=1e-9 * np.ptp(s))
    for q, v in ((.159, med - got[1]), (.841, med + got[2])):
        lo, hi = s[max(0, int(np.floor(q * (n - 1))) - 1)], s[min(n - 1, int(np.ceil(q * n)) + 1)]
        tol = 1e-9 * (np.ptp(s) + abs(med))
        m.check(lo - tol <= v <= hi + tol, "geterr-percentiles", q=q, got=v, lo=lo, hi=hi, n=n)


# ---- tables ----------------------------------------------------------------------------------------------------

def orbit_columns(vals, basis, n, npl):
    """Reference conversion of every row of one planet."""
    names = basis.split()
    rows = np.broadcast_arrays(*[np.asarray(vals['%s%d' % (x, n)], float) for x in names])
    out = [ref.from_basis(dict(zip(names, r)), basis) for r in zip(*rows)]
    per, tp, e, w, k = np.array(out).T
    tc = np.array([float(ref.tc_from_tp(o[1], o[0], o[2], o[3])) if 'tc' not in names else np.nan for o in out]) if 'tc' not in names else rows[names.index('tc')]
    return dict(per=per, tc=tc, tp=tp, e=e, w=w, k=k)


def near(x, c, period):
    return c + np.mod(x - c + period / 2, period) - period / 2


class Want:
    """What the row of a parameter has to show."""
    def __init__(self, col, best, period=None):
        self.period = period
        self.skip = False
        col = np.asarray(col, float)
        if period is not None:
            c = best if np.isfinite(best) else col[0]
            col = near(col, c, period)
            if np.ptp(col) > .4 * period:
                self.skip = True
        self.col = col
        self.best = best
        with np.errstate(all='ignore'):
            self.lo, self.med, self.hi = np.percentile(col, [15.9, 50, 84.1])

    def bounds(self, q):
        s, n = np.sort(self.col), len(self.col)
        return s[max(0, int(np.floor(q * (n - 1))) - 1)], s[min(n - 1, int(np.ceil(q * n)) + 1)]


def near_zero(a, period):
    if period is None:
        return a
    return a - np.round(a / period) * period


def check_row(m, par, row, w, letters, unit=True, tex=None, want_unit=None):
    if not m.check(len(row) == 4, "row-shows-its-parameter", par=par, row=row, why='columns'):
        return
    m.same(textab.canon_unit(row[3]), textab.canon_unit(want_unit) if want_unit is not None else textab.unit_of(par), "unit-matches", par=par, row=row)
    a, b = cell(row[1]), cell(row[2])
    if not m.check(a is not None and a[0] in ('fixed', 'value') and b is not None, "row-shows-its-parameter", par=par, row=row, why='format'):
        return
    if w.skip:
        m.event("row not judged: " + (textab.orbital(par) or par))
        return
    scale = np.max(np.abs(w.col))
    spread = max(w.hi - w.med, w.med - w.lo)
    noise = 1e-12 * scale + 1e-300
    if 0 < spread <= 50 * max(noise, 1e-12):
        m.event("row not judged: uncertainty at rounding level")
        return
    if spread == 0 or a[0] == 'fixed':
        if w.period is not None and spread > 0:
            s = w.bounds(.841)[1] - w.bounds(.159)[0]
        m.check(spread <= noise and a[0] == 'fixed' and b[0] == 'fixed', "fixed-parameters-as-fixed", par=par, row=row, spread=spread)
        if a[0] == 'fixed' and b[0] == 'fixed':
            for c in (a, b):
                v = float(c[1])
                d = abs(near_zero(v - w.med, w.period))
                tol = 5.1e-5 if abs(v) >= 1 else 5.1e-4 * max(abs(w.med), 0)
                m.check(d <= tol + 1e-9 * scale, "fixed-parameters-as-fixed", par=par, row=row, want=w.med)
        return
    if not m.check(b[0] == 'plain', "row-shows-its-parameter", par=par, row=row, why='format'):
        return
    D = max(decimals(a[2]), decimals(a[3]))
    half = .5001 * 10. ** -D
    angular = textab.orbital(par) == 'w'
    # uncertainties: two significant figures
    for q, s, want in ((.159, a[2], w.med - w.lo), (.841, a[3], w.hi - w.med)):
        x = float(s)
        r = 10. ** (np.floor(np.log10(abs(x))) - 1) if x else 1
        m.check(abs(x / r - np.round(x / r)) < 1e-6, "two-significant-figures", par=par, row=row)
        lo = hi = want
        if angular:
            z = sorted(abs(v - w.med) for v in w.bounds(q))
            lo, hi = z if not (w.bounds(q)[0] - w.med) * (w.bounds(q)[1] - w.med) < 0 else (0, z[1])
        t = two_figures(max(lo, 1e-300)) * 1.01 + 1e-9 * (w.hi - w.lo) + noise
        t2 = two_figures(hi) * 1.01 + 1e-9 * (w.hi - w.lo) + noise
        # integers
        if D == 0:
            t, t2 = max(t, .501), max(t2, .501)
        m.check(lo - t <= x <= hi + t2, "two-significant-figures", par=par, row=row, got=x, want=(lo, hi), quantile=q)
    m.check(abs(near_zero(float(a[1]) - w.med, w.period)) <= half + noise + 1e-9 * (w.hi - w.lo), "row-shows-its-parameter", par=par, row=row, want=w.med, column='median')
    m.check(abs(near_zero(float(b[1]) - w.best, w.period)) <= half + noise, "row-shows-its-parameter", par=par, row=row, want=w.best, column='maximum likelihood')
    for s, v in ((a[1], w.med), (b[1], w.best)):
        m.check(decimals(s) <= D or abs(float(s)) < 10. ** -D or D == 0 and decimals(s) == 1 and s.endswith('.0'), "value-to-the-uncertainty's-digits", par=par, row=row)


class Case:
    """A posterior, its chain and what the tables have to show."""
    pass


def wants_of(post, chains, basis, npl, maxvals, raw=None):
    """par -> Want, for fitting basis, print basis and other parameters."""
    vals = {k: (chains[k].values if k in chains else np.full(len(chains), float(post.params[k].value))) for k in post.params}
    # the case's parameters in the basis of the fit
    best = {k: np.array([(raw or maxvals)[k]]) for k in vals}      # raw: before rounding
    W = {}
    for n in range(1, npl + 1):
        c = orbit_columns(vals, basis, n, npl)
        b = orbit_columns(best, basis, n, npl)
        for x in c:
            period = 2 * np.pi if x == 'w' else None
            bv = maxvals.get('%s%d' % (x, n), b[x][0])
            if x in ('tp', 'tc') and x not in basis.split():
                period = float(np.median(c['per']))
                # a conversion that jumps by a period within the chain
                cw = near(c['w'], -np.pi / 2, 2 * np.pi)
                jump = np.any(cw > -np.pi / 2) and np.any(cw < -np.pi / 2) and np.min(np.abs(cw + np.pi / 2)) < 1.5
                W['%s%d' % (x, n)] = Want(c[x], bv, period)
                W['%s%d' % (x, n)].skip |= bool(jump) or np.ptp(c['per']) > 1e-3 * period
                if np.ptp(c[x]) == 0:
                    W['%s%d' % (x, n)].skip = False
                # the fold adds the error of the period
                continue
            W['%s%d' % (x, n)] = Want(c[x], bv, period)
        for x in basis.split():
            k = '%s%d' % (x, n)
            W[k] = Want(vals[k], maxvals[k], 2 * np.pi if x == 'w' else None)
    for k in vals:
        if k not in W and not textab.orbital(k):
            W[k] = Want(vals[k], maxvals[k])
    return W


def compiles(m, tex, what):
    bad = textab.lint(tex)
    m.check(not bad, "compiles", what=what, problems=bad[:3])


def columns_ok(m, T, what):
    n = len(T.heads) or T.ncol
    m.check(T.ncol is not None and T.ncol >= max([len(r) for r in T.rows] + [0]), "compiles", what=what, columns=T.ncol, rows=T.rows[:2])


def check_params(m, tex, W, basis, npl, letters, other, nlinks, time_base):
    compiles(m, tex, 'params')
    T = Table(tex)
    columns_ok(m, T, 'params')
    titles = [s[0] for s in T.sections[1:]]
    if not m.check(len(titles) == 3 and 'Step' in titles[0] and 'Orbital' in titles[1] and 'Other' in titles[2] and not T.sections[0][1], "each-parameter-once", sections=titles):
        return
    for (title, rows), want in zip(T.sections[1:], ([x + str(n) for n in range(1, npl + 1) for x in basis.split()],
                                                    [x + str(n) for n in range(1, npl + 1) for x in 'per tc tp e w k'.split()], None)):
        got = [textab.canon(r[0]) for r in rows]
        if want is not None:
            if not m.same(got, [textab.label(x, letters) for x in want], "each-parameter-once", section=title):
                continue
            for x, r in zip(want, rows):
                check_row(m, x, r, W[x], letters)
        else:
            lab = {textab.label(x, letters): x for x in other}
            if not m.same(sorted(got), sorted(lab), "each-parameter-once", section=title):
                continue
            order = ['gamma', 'dvdt', 'curv', 'jit']
            kinds = [next((j for j, o in enumerate(order) if lab[g].startswith(o)), 9) for g in got]
            m.same(kinds, sorted(kinds), "each-parameter-once", section=title, order=got)
            for g, r in zip(got, rows):
                check_row(m, lab[g], r, W[lab[g]], letters)
    m.check(re.search(r'\b%d links saved' % nlinks, T.after), "row-shows-its-parameter", what='links', want=nlinks)
    z = re.search(r'Reference epoch[^:]*:\s*(\S+)', T.after)
    m.check(z and abs(float(z.group(1)) - time_base) < 1e-6 * (1 + abs(time_base)), "row-shows-its-parameter", what='reference epoch', want=time_base)
    m.state("parameter table", (basis, npl, len(other)))


def check_rv(m, tex, like, obs, max_lines):
    compiles(m, tex, 'rv')
    T = Table(tex)
    columns_ok(m, T, 'rv')
    n = len(obs)
    shown = n if max_lines is None else min(n, max_lines)
    if not m.same(len(T.rows), shown, "each-observation-once", max_lines=max_lines, n=n):
        return
    # in the order of the likelihood's data
    got = []
    for r, t, v, e, tel in zip(T.rows, like.x, like.y, like.yerr, like.telvec):
        ok = len(r) == 4 and abs(float(r[0]) - t) <= .5001e-5 + 1e-15 * abs(t) and abs(float(r[1]) - v) <= .50001e-2 and abs(float(r[2]) - e) <= .50001e-2
        ok = ok and decimals(r[0]) == 5 and decimals(r[1]) == decimals(r[2]) == 2
        name = re.sub(r'[${}\s\\]|\\rm', '', r[3].replace('\\rm', ''))
        m.check(ok and name == str(tel), "each-observation-once", row=r, want=(t, v, e, str(tel)))
        got.append((float(r[0]), name))
    if shown == n:
        want = sorted((round(a, 5), str(b)) for a, b in zip(obs['time'], obs['tel']))
        got = sorted(got)
        m.check(len(got) == len(want) and all(abs(a[0] - b[0]) < 2e-5 for a, b in zip(got, want)) and sorted(g[1] for g in got) == sorted(w[1] for w in want), "each-observation-once",
                what='data file')
    note = re.search(r'first (\d+) of (\d+)', tex)
    m.check((note is not None) == (shown < n) and (note is None or (int(note.group(1)), int(note.group(2))) == (shown, n)), "each-observation-once", what='note of omitted rows', shown=shown, n=n)


def check_priors(m, tex, priors, letters):
    compiles(m, tex, 'priors')
    T = Table(tex)
    want = []
    R = radvel.prior
    for p in priors:
        c = type(p).__name__
        if c == 'EccentricityPrior':
            ups = np.broadcast_to(p.upperlims, (len(list(p.planet_list)),))
            want += [(c, [textab.label('e%d' % n, letters)], [u]) for n, u in zip(p.planet_list, ups)]
        elif c == 'PositiveKPrior':
            want.append((c, ['K'], []))
        elif c == 'Gaussian':
            want.append((c, [textab.label(p.param, letters)], [p.mu, p.sigma]))
        elif c in ('HardBounds', 'Jeffreys'):
            want.append((c, [textab.label(p.param, letters).replace('$', '')], [p.minval, p.maxval]))
        elif c == 'ModifiedJeffreys':
            want.append((c, [textab.label(p.param, letters).replace('$', '')], [p.kneeval, p.minval, p.maxval]))
        elif c == 'SecondaryEclipsePrior':
            want.append((c, [], [p.ts, p.ts_err]))
        elif c == 'NumericalPrior':
            want.append((c, [textab.label(x, letters) for x in p.param_list], []))
        elif c == 'UserDefinedPrior':
            want.append((c, [textab.canon(p.tex_rep)], []))
        else:
            want.append((c, [textab.canon(p.param)], [p.baseline, p.duration]))
    if not m.same(len(T.raw), len(want), "each-prior-once", rows=T.raw, priors=want):
        return
    for row, (c, labels, nums) in zip(T.raw, want):
        k = textab.canon(row)
        pos = -1
        rest = k
        for l in labels:
            at = k.find(l, pos + 1)
            m.check(at > pos, "each-prior-once", row=row, label=l, kind=c)
            pos = at
            rest = rest.replace(l, ' ; ', 1)
        got = [float(x) for x in re.findall(textab.NUM, rest.replace('>0', '') if c == 'PositiveKPrior' else rest)] if c != 'UserDefinedPrior' else []
        m.same(got, [float(x) for x in nums], "each-prior-once", row=row, kind=c, what='numbers')
        m.state("prior", c)


def check_crit(m, tex, values):
    compiles(m, tex, 'crit')
    T = Table(tex)
    names = ['minAfactor', 'maxArchange', 'maxGR', 'minTz']
    if not m.same([r[0] for r in T.rows], names, "criteria-table"):
        return
    for r, v in zip(T.rows, values):
        t = r[1].strip('$ ')
        if v is None:
            m.same(t, 'None', "criteria-table", row=r)
        else:
            v = float(v)
            ok = (np.isnan(v) and t == 'nan') or (np.isinf(v) and t == str(v)) if not np.isfinite(v) else (abs(float(t) - v) <= .50001e-3 + 1e-15 * abs(v) and decimals(t) == 3)
            m.check(ok, "criteria-table", row=r, want=v)


def check_derived(m, tex, chains, npl, letters):
    compiles(m, tex, 'derived')
    T = Table(tex)
    columns_ok(m, T, 'derived')
    want = []
    j = int(np.nanargmax(chains['lnprobability'].values))
    for n in range(1, npl + 1):
        L = (letters or {}).get(n, chr(97 + n))
        for key, tex_, unit in (('mpsini', '$M_%s\\sin i$', 'M$_{\\oplus}$'), ('rhop', '$\\rho_%s$', 'g cm$^{-3}$'), ('a', '$a_%s$', 'AU')):
            c = '%s%d' % (key, n)
            if c not in chains or chains[c].isnull().any():
                continue
            v = chains[c].values
            if key == 'mpsini' and np.median(v) > 100:
                v, unit = v * 0.0031464, 'M$_{\\rm Jup}$'
            want.append((textab.canon(tex_ % L), unit, Want(v, v[j])))
    got = [textab.canon(r[0]) for r in T.rows]
    if m.same(sorted(got), sorted(w[0] for w in want), "derived-rows") and len(set(got)) == len(got):
        d = {w[0]: w for w in want}
        for g, r in zip(got, T.rows):
            check_row(m, g, r, d[g][2], letters, want_unit=d[g][1])
        order = [re.search(r'_(\w+?)(?:\\|\$)', g).group(1) for g in got]
        m.same(order, sorted(order, key=[(letters or {}).get(n, chr(97 + n)) for n in range(1, npl + 1)].index), "derived-rows", what='order of planets')


MESSAGES = [(10., "Ruled Out"), (4., "Strongly Disfavored"), (2., "Somewhat Disfavored"), (0., "Nearly Indistinguishable")]


def check_comparison(m, tex, stats):
    compiles(m, tex, 'comparison')
    T = Table(tex)
    columns_ok(m, T, 'comparison')
    keys = list(stats[0])
    numeric = [k for k in keys if k != 'Free Params']
    heads = ['AICc Qualitative Comparison', 'Free Parameters'] + numeric + [r'$\Delta$AICc']
    m.same(T.heads, heads, "models-sorted-once", what='heads')
    order = sorted(range(len(stats)), key=lambda j: stats[j]['AICc'][0])
    n = min(50, len(stats))
    if not m.same(len(T.rows), n, "models-sorted-once", what='number of models', want=n):
        return
    best = stats[order[0]]['AICc'][0]
    left = [dict(s) for s in stats]
    last, seen = -np.inf, -1
    for j, r in enumerate(T.rows):
        if not m.check(len(r) == len(heads), "models-sorted-once", row=r, what='columns'):
            return
        aic = stats[order[j]]['AICc'][0]
        m.check(abs(float(r[-1]) - (aic - best)) < .00501 or aic - best == float(r[-1]), "models-sorted-once", row=r, want=aic - best, what='difference')
        # one of the models with this AICc, not shown before
        hit = None
        for z, s in enumerate(left):
            if s is None or s['AICc'][0] != aic:
                continue
            free = s['Free Params'][0]
            cells = [x.strip() for x in r[1].replace('{$\\gamma$}', '').split(',')]
            cells = [x for x in cells if x]
            if cells != [str(x) for x in free]:
                continue
            good = True
            for k, x in zip(numeric, r[2:-1]):
                v = s[k][0]
                good &= x == str(v) if isinstance(v, (int, np.integer)) else (float(x) == v or abs(float(x) - v) <= .00501 or (np.isnan(v) and x == 'nan'))
            if good:
                hit = z
                break
        m.check(hit is not None, "models-sorted-once", row=r, want=stats[order[j]], aicc=aic)
        if hit is not None:
            left[hit] = None
        d = aic - best
        # the message is given where its level is first reached
        lev = next((k for k, (x, _) in enumerate(MESSAGES) if d > x), len(MESSAGES))
        lev = len(MESSAGES) - lev
        text = r[0]
        if j == 0:
            m.same(text, "AICc Favored Model", "models-judged", row=r)
        elif lev > max(seen, 0):
            m.same(text, MESSAGES[len(MESSAGES) - lev][1], "models-judged", row=r, difference=d)
        else:
            m.same(text, '', "models-judged", row=r, difference=d)
        seen = max(seen, lev)
    m.state("comparison", (min(len(stats), 60) // 10, seen))


INSTS = [['j'], ['k', 'j'], ['hires_rj', 'apf', 'k'], ['a', 'ab'], ['j', 'j1'], ['hires_k_2004', 'harps'], ['x2', 'x', 'lick_new']]


def own_hyper(s):
    """Hyperparameters of their own for every instrument."""
    P = radvel.Parameters(s.npl, basis=s.basis, planet_letters=s.P.planet_letters)
    for k, p in s.P.items():
        if k in s.hnames:
            for i in s.insts:
                P['%s_%s' % (k, i)] = radvel.Parameter(value=p.value * (1 + .1 * s.insts.index(i)), vary=p.vary)
        else:
            P[k] = p
    s.hnames = {i: ['%s_%s' % (h, i) for h in s.hnames] for i in s.insts}
    s.P = P


def prior_list(rng, s, letters):
    out = []
    names = list(s.P)
    pickp = lambda: str(gen.pick(rng, names))
    num = lambda a, b: float(np.round(rng.uniform(a, b), int(rng.integers(0, 6))))
    for _ in range(int(rng.integers(0, 7))):
        k = int(rng.integers(9))
        p = pickp()
        if k == 0:
            out.append("radvel.prior.Gaussian(%r, %r, %r)" % (p, num(-50, 50), num(.5, 9)))
        elif k == 1:
            out.append("radvel.prior.HardBounds(%r, %r, %r)" % (p, num(-1e5, -1), num(1e5, 1e7)))
        elif k == 2 and s.npl:
            ups = [num(.9, .99) for _ in range(s.npl)]
            if any(u >= 1 for u in ups):
                ups = [.95] * s.npl
            out.append("radvel.prior.EccentricityPrior(%d, upperlims=%r)" % (s.npl, ups))
        elif k == 3 and s.npl:
            out.append("radvel.prior.EccentricityPrior([%d])" % s.npl)
        elif k == 4 and s.npl:
            out.append("radvel.prior.PositiveKPrior(%d)" % s.npl)
        elif k == 5:
            p = [x for x in names if x.startswith('jit')][0]
            out.append("radvel.prior.Jeffreys(%r, %r, %r)" % (p, num(.00001, .01) or .001, num(100, 1000)))
        elif k == 6:
            p = [x for x in names if x.startswith('jit')][-1]
            out.append("radvel.prior.ModifiedJeffreys(%r, %r, %r, %r)" % (p, num(-.9, 0), num(100, 1000), -num(1.6, 3)))
        elif k == 7 and s.npl:
            out.append("radvel.prior.SecondaryEclipsePrior(%d, %r, %r)" % (int(rng.integers(1, s.npl + 1)), num(0, 100), num(1, 5)))
        elif k == 8:
            ps = [names[j] for j in rng.permutation(len(names))][:int(rng.integers(1, 4))]
            out.append("radvel.prior.NumericalPrior(%r, np.random.RandomState(1).normal(0, 100, (%d, 50)))" % (ps, len(ps)))
    if rng.random() < .3 and s.npl and any(k.startswith('per') or k.startswith('logper') for k in names):
        p = [k for k in names if k.startswith('per') or k.startswith('logper')][0]
        out.append("radvel.prior.InformativeBaselinePrior(%r, %r, duration=%r)" % (p, num(10, 100), num(0, 1)))
    if rng.random() < .2:
        out.append("radvel.prior.UserDefinedPrior([%r], lambda x: 0., %r)" % (names[-1], 'Flat prior on $\\sqrt{e_{b}}$, see \\S 2'))
    return [out[j] for j in rng.permutation(len(out))]


def make_chain(rng, post, names, basis, n):
    """Scatter around the posterior's values; every row bound."""
    cols = {}
    for k in names:
        v = float(post.params[k].value)
        b = textab.orbital(k)
        if b in ('secosw', 'sesinw', 'ecosw', 'esinw'):
            sig = min(.02, .05 * abs(v) + 1e-4) * 10 ** rng.uniform(-2, 0)
        elif b in ('e', 'se'):
            sig = .2 * v * 10 ** rng.uniform(-2, 0) * .5
        elif b in ('per', 'logper'):
            sig = (v if b == 'per' else 1.) * 10 ** rng.uniform(-7, -5)
        elif b == 'w':
            sig = 10 ** rng.uniform(-3, -1)
        elif b in ('tc', 'tp'):
            sig = 10 ** rng.uniform(-5, -1)
        else:
            sig = 10 ** rng.uniform(-3, 1) * (1 if rng.random() < .6 else abs(v) * .2 + 1e-6)
        z = np.clip(rng.normal(0, 1, n), -3, 3)
        if rng.random() < .2 and b is None:
            z = np.abs(z) ** 3
        if rng.random() < .08 and b is None:
            z = np.where(rng.random(n) < .6, 0., np.abs(z))        # a one-sided uncertainty
        cols[k] = v + sig * z
        cols[k][0] = v
        if b == 'w' and rng.random() < .5:
            cols[k] = np.mod(cols[k] + np.pi, 2 * np.pi) - np.pi
            cols[k][0] = v
    df = pd.DataFrame(cols, index=range(n))
    lp = -.5 * np.abs(rng.normal(0, 3, n)) - 100
    lp[0] = -99.
    df['lnprobability'] = lp
    perm = rng.permutation(n)
    if n > 20 and rng.random() < .3:        # walkers stay where they are now and then
        perm[-(n // 8):] = perm[:n // 8]
    return df.iloc[perm].reset_index(drop=True)


def stats_list(rng, n):
    out = []
    base = float(np.round(rng.uniform(-100, 900), 2))
    for j in range(n):
        d = OrderedDict.fromkeys(['Free Params', r'$N_{\rm free}$', r'$N_{\rm data}$', 'RMS', r'$\ln{\mathcal{L}}$', 'BIC', 'AICc'])
        free = list(gen.pick(rng, [[], [r'$K_{b}$'], [r'$e_{b}$', r'$K_{b}$', r'{$\sigma$}'], [r'$\dot{\gamma}$', r'$\ddot{\gamma}$'], [r'$K_{c}$', r'GP$_{\rm j}$']]))
        a = np.round(base + gen.pick(rng, [0., 1.5, 2., 4., 10., float(rng.uniform(0, 3)), float(rng.uniform(0, 15)), float(rng.uniform(0, 200)), np.inf if j else 5.]), 2)
        d['Free Params'] = (free, "The free parameters in this model")
        d[r'$N_{\rm free}$'] = (int(rng.integers(1, 15)), 'number of free parameters')
        d[r'$N_{\rm data}$'] = (40, 'number of measurements')
        d['RMS'] = (np.round(rng.uniform(.5, 50), 2), 'RMS')
        d[r'$\ln{\mathcal{L}}$'] = (np.round(rng.uniform(-500, -10), 2), 'lnL')
        d['BIC'] = (np.round(rng.uniform(100, 900), 2), 'BIC')
        d['AICc'] = (a, 'AICc')
        out.append(d)
    return [out[j] for j in rng.permutation(n)]


def snapshot(post, chains):
    v = post.likelihood.vector
    return (gen.snapshot(post.params), v.vector.tobytes(), tuple(v.names), tuple(repr(p) for p in post.priors), tuple(post.name_vary_params()),
            tuple(sorted((k, float(x)) for k, x in getattr(post, 'maxparams', {}).items())), post.likelihood.x.tobytes(), post.likelihood.y.tobytes(), post.likelihood.yerr.tobytes(),
            tuple(map(str, post.likelihood.telvec)), tuple(chains.columns), chains.values.tobytes(), tuple(sorted(radvel.report.units.items())))


def u_tables(m, rng, i):
    npl = int(gen.pick(rng, [0, 1, 1, 2, 2, 3]))
    gp = str(gen.pick(rng, ['SqExp', 'QuasiPer', 'Per', 'Celerite'])) if rng.random() < .3 else None
    letters = {n: str(x) for n, x in zip(range(1, npl + 1), rng.permutation(list('bcdefg')))} if npl and rng.random() < .4 else None
    basis = str(gen.pick(rng, ref.BASES))
    s = gen.system(radvel, rng, npl=npl, basis=basis, gp=gp, emax=.6, letters=letters, insts=gen.pick(rng, INSTS), nobs=int(gen.pick(rng, [6, 9, 30])), linear=False if gp else None)
    if gp and rng.random() < .6:
        own_hyper(s)
    priors = prior_list(rng, s, letters)
    star = str(gen.pick(rng, ['HD1', 'HD_10', 'K2_1_a']))
    root = os.path.join(m.scratch, "tab%d" % i)
    path, df = setups.write(root, s, name='s%d' % i, priors=priors, letters=letters, rng=rng, starname=star)
    m.describe(basis=basis, npl=npl, gp=gp, letters=letters, insts=s.insts, trend=s.trend, decorr=s.decorr, priors=priors, star=star)
    planet, post = radvel.utils.initialize_posterior(path, decorr=bool(s.decorr))
    names = list(post.name_vary_params())
    n = int(gen.pick(rng, [60, 200, 500]))
    chains = make_chain(rng, post, names, basis, n)
    post.likelihood.logprob()             # analytically determined offsets get their values
    maxvals = {k: float(p.value) for k, p in post.params.items()}
    if rng.random() < .6:
        sy = {}
        for q in range(1, npl + 1):
            for k, v in orbit_columns({k: np.array([v]) for k, v in maxvals.items()}, basis, q, npl).items():
                if k != 'tc':
                    sy['%s%d' % (k, q)] = float(v[0])
        post.maxparams = dict(sy, **maxvals)
    derived = bool(npl) and rng.random() < .6
    if derived:
        for q in range(1, npl + 1):
            big = rng.random() < .4
            chains['mpsini%d' % q] = np.abs((300. if big else 10.) * 10 ** rng.uniform(0, .5) * (1 + .1 * rng.normal(size=n)))
            chains['musini%d' % q] = 1e-4 * (1 + .1 * rng.normal(size=n))
            chains['a%d' % q] = 10 ** rng.uniform(-2, 1) * (1 + .01 * rng.normal(size=n))
            if rng.random() < .6:
                chains['rhop%d' % q] = 5 * (1 + .1 * rng.normal(size=n))
    crit = [gen.pick(rng, [None, float(10 ** rng.uniform(-4, 4)), '%.4f' % rng.uniform(0, 100), float('inf')]) for _ in range(4)]
    if crit[0] is None:
        crit = [None] * 4
    crit = [c if c is not None or crit[0] is None else 1.5 for c in crit]
    stats = stats_list(rng, int(gen.pick(rng, [1, 2, 5, 12, 60]))) if rng.random() < .8 else None
    stats0 = copy.deepcopy(stats)
    snap = snapshot(post, chains)
    make = lambda: radvel.report.RadvelReport(planet, post, chains, *crit, compstats=stats, derived=derived)
    rep = m.call(make)
    tab = m.call(radvel.report.TexTable, rep)
    W = wants_of(post, chains, basis, npl, maxvals)
    other = [k for k in post.params if not textab.orbital(k)]
    lines = gen.pick(rng, [None, 5, 50, len(df), len(df) - 1])
    titled = bool(rng.random() < .5)
    todo = {'params': lambda t: t.tab_params(name_in_title=titled), 'rv': lambda t: t.tab_rv(name_in_title=titled, max_lines=lines), 'priors': lambda t: t.tab_prior_summary(name_in_title=titled),
            'crit': lambda t: t.tab_crit(name_in_title=titled), 'derived': lambda t: t.tab_derived(name_in_title=titled)}
    if stats:
        todo['comparison'] = lambda t: t.tab_comparison()
    keys = list(todo)
    out = {}
    with silent():
        for k in [keys[j] for j in rng.permutation(len(keys))]:
            out[k] = m.call(todo[k], tab)
            m.check(snapshot(post, chains) == snap and stats == stats0, "inputs-unchanged", after=k)
        rep2 = m.call(make)
        tab2 = radvel.report.TexTable(rep2)
        for k in [keys[j] for j in rng.permutation(len(keys))]:
            m.check(m.call(todo[k], tab) == out[k], "repeated-generation-identical", table=k)
            m.check(m.call(todo[k], tab2) == out[k], "repeated-generation-identical", table=k, what='second report')
        doc = m.call(rep.texdoc)
    m.check(snapshot(post, chains) == snap and stats == stats0, "inputs-unchanged", after='report')
    check_params(m, out['params'], W, basis, npl, letters, other, n, s.time_base)
    check_rv(m, out['rv'], post.likelihood, df, lines)
    check_priors(m, out['priors'], post.priors, letters)
    check_crit(m, out['crit'], crit)
    if derived:
        check_derived(m, out['derived'], chains, npl, letters)
    else:
        m.same(out['derived'], '', "derived-rows")
    if stats:
        check_comparison(m, out['comparison'], stats)
    for k, t in out.items():
        if k in ('comparison', 'derived') and not t:
            continue
        cap = Table(t).caption
        m.check((star.replace('_', '\\_') in cap) == (titled and k != 'comparison'), "row-shows-its-parameter", what='title', caption=cap)
    check_doc(m, doc, tab, stats, derived)


def check_doc(m, doc, tab, stats, derived):
    compiles(m, doc, 'report')
    with silent():
        parts = {'params': tab.tab_params(), 'rv': tab.tab_rv(), 'priors': tab.tab_prior_summary(), 'crit': tab.tab_crit()}
        if derived:
            parts['derived'] = tab.tab_derived()
        if stats:
            parts['comparison'] = tab.tab_comparison()
    for k, t in parts.items():
        m.check(doc.count(t.strip()) == 1, "report-contains-each-table", table=k, times=doc.count(t.strip()))
    m.same(len(re.findall(r'\\begin\{deluxetable', doc)), len(parts), "report-contains-each-table", what='number of tables')
    m.same([doc.count('\\begin{document}'), doc.count('\\end{document}')], [1, 1], "report-contains-each-table")


# ---- the pipeline ----------------------------------------------------------------------------------------------

def u_pipeline(m, rng, i):
    letters = {1: 'd', 2: 'b'} if rng.random() < .3 else None
    pp = pipe.Pipe(m, rng, i, npl=int(gen.pick(rng, [1, 2])), letters=letters, emax=.4)
    P, p0 = pp.initial()
    if not np.isfinite(p0.logprob()):
        raise Skip("start excluded")
    comp = pipe.latex_standin(os.path.join(pp.root, 'latex.sh'))
    if not pp.must('fit'):
        return
    if not pp.must('mcmc', '--nsteps', 60, '--nwalkers', 8, '--nensembles', 2, '--serial', 'True', '--headless', '--minsteps', 0):
        return
    pp.must('derive')
    types = ['trend'] if pp.s.trend != 'none' else ['jit']
    ic = pp.cmd('ic', '-t', *types) is None
    if rng.random() < .4:
        # plots become part of the report
        pp.must('plot', '-t', *gen.pick(rng, [['rv'], ['rv', 'corner'], ['derived']]))
    before = pp.tree()
    kinds = ['params', 'priors', 'rv', 'crit', 'derived'] + (['ic_compare'] if ic else [])
    if not pp.must('table', '-t', *[kinds[j] for j in rng.permutation(len(kinds))], *(['--header'] if False else [])):
        return
    st = pp.status()
    tex = {k: open(st['table']['%s_tex' % k]).read() for k in kinds}
    ch = pp.table('mcmc')
    d = pd.read_csv(st['derive']['chainfile'])
    ch = ch.join(d, rsuffix='_derived')
    post = pp.post('mcmc')
    maxvals = {k: float(post.params[k].value) for k in post.params}
    raw = dict(maxvals)
    maxvals.update({k: float(v) for k, v in post.maxparams.items()})
    n0 = len(m.viol)
    bound = True
    for n in range(1, pp.npl + 1):
        try:
            c = orbit_columns({k: (ch[k].values if k in ch else np.full(len(ch), maxvals[k])) for k in post.params}, pp.s.basis, n, pp.npl)
            bound &= bool(np.isfinite(c['tp']).all() and (c['e'] < .999).all())
        except Exception:
            bound = False
    if bound and np.isfinite(ch.values.astype(float)).all():
        W = wants_of(post, ch, pp.s.basis, pp.npl, maxvals, raw)
        check_params(m, tex['params'], W, pp.s.basis, pp.npl, letters, [k for k in post.params if not textab.orbital(k)], len(ch), pp.s.time_base)
        check_derived(m, tex['derived'], ch, pp.npl, letters)
    else:
        m.event("parameter table not judged: unbound rows")
        compiles(m, tex['params'], 'params')
    check_rv(m, tex['rv'], post.likelihood, pp.df, None)
    check_priors(m, tex['priors'], post.priors, letters)
    check_crit(m, tex['crit'], [st['mcmc'][k] for k in ('minafactor', 'maxarchange', 'maxgr', 'mintz')])
    stats = None
    if ic:
        stats = eval(st['ic_compare']['ic'], {'np': np, 'inf': np.inf, 'nan': np.nan, 'OrderedDict': OrderedDict, 'array': np.array})
        check_comparison(m, tex['ic_compare'], stats)
    if pp.must('report', '--latex-compiler', comp):
        f = os.path.join(pp.out, pp.name + '_results.tex')
        if m.check(os.path.isfile(f), "report-contains-each-table", what='TeX file'):
            doc = open(f).read()
            compiles(m, doc, 'report')
            for k in kinds:
                if k != 'rv':
                    m.check(doc.count(tex[k].strip()) == 1, "report-contains-each-table", table=k, times=doc.count(tex[k].strip()))
            m.same(len(re.findall(r'\\begin\{deluxetable', doc)), len(kinds), "report-contains-each-table", what='number of tables')
            figs = re.findall(r'\\includegraphics\[[^\]]*\]\{([^}]*)\}', doc)
            plots = {os.path.basename(v) for k, v in pp.status().get('plot', {}).items()}
            m.same(sorted(figs), sorted(p for p in plots if re.search(r'_(rv_multipanel|corner|corner_derived_pars)\.pdf$', p)), "report-contains-each-table", what='figures')
    m.check(len(m.viol) == n0, "tables-of-the-pipeline")


UNITS = [("format", u_format, 72, 400), ("tables", u_tables, 396, 3000), ("pipeline", u_pipeline, 29, 160)]
