"""C24: setup files and the analyses made of them: every instrument's rows, parameter, prior and option against what the generated file says."""
import copy, os, warnings
import numpy as np
import pandas as pd
import radvel
from .. import ref, gen
from ..core import Skip
from ..chains import silent

ANCHORS = ["utils.py", "likelihood.py", "posterior.py"]
RULE = ("Generated setup files: 0-3 planets in every basis (declared in it or converted to it), 1-4 instruments of which some rows may belong to none, tables in any row order "
        "with default, shuffled, repeated, textual or time indices and further columns, trends, decorrelation, GP kernels with shared or own hyperparameters, priors, "
        "planet letters, files of one name in several directories; files that cannot be an analysis (wrong basis, instrument without data, missing columns).")
ASSUMPTIONS = ["instrument names are strings without blanks", "GP likelihoods take no decorrelation vectors"]
EXC = (Exception,)


class F:
    """A generated setup file and what it means."""


def pieces(rng, i, m, gp='any', decorr=None, npl=None, insts=None, basis=None):
    f = F()
    if gp == 'any':
        gp = gen.pick(rng, [None, None, None, None] + list(ref.KERNELS))
    f.letters = gen.pick(rng, [None, None, {1: 'd', 2: 'b', 3: 'x'}])
    insts = insts or gen.pick(rng, [['j'], ['k', 'j'], ['hires_rj', 'apf', 'lick'], ['a', 'ab'], ['b', 'a'], ['z', 'harps-n', 'y.2', 'a_b'], ['3', '10', '2'], ['HIRES_J', 'hires_j']])
    f.s = s = gen.system(radvel, rng, npl=npl, basis=basis, gp=gp, insts=insts, letters=f.letters, decorr=decorr, epoch=float(gen.pick(rng, [0., 2455000., 2455000.75, 7000.25, -120.5])))
    f.insts = [insts[j] for j in rng.permutation(len(insts))]
    for k in s.P:
        if rng.random() < .1:
            s.P[k].mcmcscale = float(10 ** rng.uniform(-3, 1))
    # some hyperparameters of an instrument's own
    f.h = {}
    if gp:
        for inst in insts:
            f.h[inst] = []
            for h in ref.KERNELS[gp]:
                if rng.random() < .3:
                    f.h[inst].append(h + '_' + inst)
                    s.P[h + '_' + inst] = radvel.Parameter(value=s.P[h].value * float(rng.uniform(.5, 2)), vary=bool(rng.integers(2)))
                else:
                    f.h[inst].append(h)
    return f


def table(rng, f):
    """The data table: rows of all instruments, mixed, and further ones; text of the statements that read it."""
    s = f.s
    rows = []
    for inst in s.insts:
        t, y, e, dv = s.data[inst]
        d = {'time': t, 'mnvel': y, 'errvel': e, 'tel': inst}
        d.update(dv)
        rows.append(pd.DataFrame(d))
    f.foreign = []
    if rng.random() < .4:
        for other in [gen.pick(rng, ['zzz', s.insts[0] + 'x', 'A', s.insts[0][:-1] or 'q'])]:
            if other in s.insts:
                continue
            n = int(rng.integers(1, 9))
            d = {'time': s.time_base + rng.uniform(-50, 150, n), 'mnvel': rng.normal(0, 1e3, n), 'errvel': rng.uniform(.5, 3, n), 'tel': other}
            d.update({k: rng.normal(0, 1, n) for k in s.decorr})
            rows.append(pd.DataFrame(d))
            f.foreign.append(other)
    mix = gen.pick(rng, ['blocks', 'mixed', 'mixed', 'sorted'])
    df = pd.concat([rows[j] for j in rng.permutation(len(rows))], ignore_index=True)
    if mix == 'mixed':
        df = df.iloc[rng.permutation(len(df))].reset_index(drop=True)
    elif mix == 'sorted':
        df = df.sort_values('time').reset_index(drop=True)
    if rng.random() < .5:
        df['sval'] = rng.uniform(.1, .3, len(df))
        df = df[[df.columns[j] for j in rng.permutation(len(df.columns))]]
    idx = gen.pick(rng, ['default', 'default', 'shuffled', 'repeated', 'text', 'time', 'category', 'offset'])
    L = ["data = pd.read_csv(%r, dtype={'tel': str})"]
    n = len(df)
    if idx == 'shuffled':
        L.append("data.index = %r" % [int(x) for x in rng.permutation(n)])
    elif idx == 'repeated':
        L.append("data.index = %r" % [int(x) for x in rng.integers(0, max(1, n // 3), n)])
    elif idx == 'text':
        L.append("data.index = %r" % ["r%d" % x for x in rng.integers(0, n, n)])
    elif idx == 'time':
        L.append("data = data.set_index('time', drop=False)")
        L.append("data.index.name = 'bjd'")
    elif idx == 'category':
        L.append("data['tel'] = data['tel'].astype('category')")
    elif idx == 'offset':
        L.append("data.index = data.index + 7")
    f.df, f.idx, f.mix = df, idx, mix
    # each instrument's rows in the order of the table
    for inst in s.insts:
        q = df[df.tel == inst]
        s.data[inst] = (q.time.values, q.mnvel.values, q.errvel.values, {k: q[k].values for k in s.decorr})
    return L


def priors(rng, f):
    s = f.s
    v = gen.values(s.P)
    pri, ob = [], []
    def add(text):
        pri.append("radvel.prior." + text)
    for k in s.P:
        u = rng.random()
        if s.P[k].linear:
            continue
        if k.startswith('jit') and u < .5:
            add("Jeffreys(%r, 1e-3, 1e3)" % k)
        elif u < .2:
            add("Gaussian(%r, %r, %r)" % (k, v[k] + 1., abs(v[k]) + 1.))
        elif u < .3:
            add("HardBounds(%r, %r, %r)" % (k, v[k] - 1., v[k] + 2.))
    if s.npl and rng.random() < .5:
        add("EccentricityPrior(%d)" % s.npl)
    if s.npl and rng.random() < .5:
        add("PositiveKPrior(%d)" % s.npl)
    f.pri = [pri[j] for j in rng.permutation(len(pri))]


def write(rng, f, directory, name, convert=False, extra=(), drop=(), L0=None):
    s = f.s
    os.makedirs(directory, exist_ok=True)
    csv = os.path.join(directory, name + '.csv')
    L = L0 or table(rng, f)
    f.df.to_csv(csv, index=False, float_format='%.17g')
    T = ["import os", "import numpy as np", "import pandas as pd", "import radvel",
         "starname = %r" % name, "nplanets = %d" % s.npl, "instnames = %r" % f.insts, "ntels = len(instnames)", "fitting_basis = %r" % s.basis, "bjd0 = 0."]
    if f.letters:
        T.append("planet_letters = %r" % f.letters)
    let = ", planet_letters=planet_letters" if f.letters else ""
    dec = lambda P, k, flags=True: "params[%r] = radvel.Parameter(value=%r%s)" % (k, float(P[k].value), ", vary=%r, linear=%r%s" % (
        bool(P[k].vary), bool(P[k].linear), "" if P[k].mcmcscale is None else ", mcmcscale=%r" % P[k].mcmcscale) if flags else "")
    T.append("time_base = %r" % float(s.time_base))
    names = ['%s%d' % (b, n) for n in range(1, s.npl + 1) for b in s.basis.split()]
    other = [k for k in s.P if k not in names]
    if convert:
        # declared in another basis and converted, flags set afterwards
        b2 = f.other
        T.append("params = radvel.Parameters(nplanets, basis=%r%s)" % (b2, let))
        for n in range(1, s.npl + 1):
            for b, v in ref.to_basis(s.orbits[n - 1], b2).items():
                T.append("params['%s%d'] = radvel.Parameter(value=%r)" % (b, n, float(v)))
        T.append("params = params.basis.to_any_basis(params, fitting_basis)")
        for k in other:
            T.append(dec(s.P, k))
        T.append("mod = radvel.RVModel(params, time_base=time_base)")
        for k in names:
            T.append("mod.params[%r].vary = %r" % (k, bool(s.P[k].vary)))
            s.P[k].mcmcscale = None
    else:
        T.append("params = radvel.Parameters(nplanets, basis=fitting_basis%s)" % let)
        for k in (list(s.P) if rng.random() < .5 else other + names):
            T.append(dec(s.P, k))
    T.append(L[0] % csv)
    T += L[1:]
    T.append("priors = [%s]" % ", ".join(f.pri))
    if s.decorr:
        T.append("decorr_vars = %r" % list(s.decorr))
    if s.gp:
        T.append("hnames = %r" % f.h)
        if not (s.gp == 'QuasiPer' and rng.random() < .5):
            T.append("kernel_name = %r" % {x: s.gp for x in s.insts})
    T.append("stellar = dict(mstar=1., mstar_err=.1)")
    T += list(extra)
    T = [x for x in T if not any(x.startswith(d) for d in drop)]
    path = os.path.join(directory, name + '.py')
    with open(path, 'w') as fh:
        fh.write("\n".join(T) + "\n")
    f.path = path
    return path


def init(m, path, decorr):
    with silent(), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return m.call(radvel.utils.initialize_posterior, path, decorr=decorr)


def loglike(f, vals, varies, decorr):
    s = f.s
    tot = 0.
    for inst in f.insts:
        if s.gp:
            t, y, e, dv = s.data[inst]
            r = y - ref.model_rv(vals, s.basis, s.npl, t, s.time_base)[0] - vals['gamma_' + inst]
            hv = {b: vals[n] for b, n in zip(ref.KERNELS[s.gp], f.h[inst])}
            K = ref.kernel(s.gp, hv, t, t) + np.diag(e ** 2 + vals['jit_' + inst] ** 2)
            tot += ref.mvn_loglike(r, K)
        else:
            old = s.decorr
            try:
                s.decorr = old if decorr else []
                tot += gen.inst_loglike(s, vals, inst, varies)
            finally:
                s.decorr = old
    return tot


def prior_value(f, vals, P):
    """The declared priors at these values, each from its definition."""
    tot = 0.
    for t in f.pri:
        k, a = eval(t.replace("radvel.prior.", "", 1), {c: (lambda c: lambda *a: (c, a))(c) for c in ('Gaussian', 'HardBounds', 'Jeffreys', 'EccentricityPrior', 'PositiveKPrior')})
        if k == 'Gaussian':
            tot += -.5 * ((vals[a[0]] - a[1]) / a[2]) ** 2 - .5 * np.log(a[2] ** 2 * 2 * np.pi)
        elif k == 'HardBounds':
            tot += -np.log(a[2] - a[1]) if a[1] < vals[a[0]] < a[2] else -np.inf
        elif k == 'Jeffreys':
            tot += -np.log(vals[a[0]]) - np.log(np.log(a[2] / a[1])) if a[1] < vals[a[0]] < a[2] else -np.inf
        elif k == 'EccentricityPrior':
            tot += -a[0] * np.log(.99)
    return tot


def judge(m, f, P, post, decorr, tag=''):
    s = f.s
    like = post.likelihood
    want = gen.values(s.P)
    names = list(s.P)
    # parameters
    m.same(sorted(post.params), sorted(names), "declared-parameters", tag=tag)
    for k in names:
        p, q = post.params[k], s.P[k]
        m.check(abs(p.value - q.value) <= (1e-9 * (1 + abs(q.value)) if f.convert else 0), "declared-values", par=k, got=p.value, want=q.value, convert=f.convert)
        m.same((bool(p.vary), bool(p.linear), p.mcmcscale), (bool(q.vary), bool(q.linear), q.mcmcscale), "declared-flags", par=k)
        j = post.vector.indices[k]
        m.check((q.linear or post.vector.vector[j][0] == p.value) and bool(post.vector.vector[j][1]) == bool(q.vary), "declared-values", par=k, what='vector', row=list(post.vector.vector[j]))
    m.same(sorted(post.name_vary_params()), sorted(k for k in names if s.P[k].vary), "declared-flags", what='free parameters')
    m.same(post.params.basis.name, s.basis, "fitting-basis")
    m.same(post.params.num_planets, s.npl, "fitting-basis")
    m.same(post.params.planet_letters, f.letters, "planet-letters")
    m.same(like.model.time_base, s.time_base, "time-base")
    # instruments
    m.same([l.suffix.lstrip('_') for l in like.like_list], f.insts, "instruments-in-order")
    m.same([x.lstrip('_') for x in like.suffixes], f.insts, "instruments-in-order")
    off = 0
    for l, inst in zip(like.like_list, f.insts):
        t, y, e, dv = s.data[inst]
        o = np.lexsort((y, t)) if s.gp == 'Celerite' else np.arange(len(t))
        if s.gp == 'Celerite':
            lx = np.asarray(l.x)
            o2 = np.lexsort((np.asarray(l.y), lx))
        else:
            o2 = o
        n = len(t)
        m.check(len(l.x) == n and np.array_equal(np.asarray(l.x)[o2], t[o]) and np.array_equal(np.asarray(l.y)[o2], y[o]) and np.array_equal(np.asarray(l.yerr)[o2], e[o]),
                "each-instrument-its-rows", inst=inst, n=(len(l.x), n), index=f.idx, mix=f.mix)
        m.check(list(np.asarray(l.telvec)) == [inst] * n, "each-instrument-its-rows", inst=inst, what='names')
        m.check(list(like.telvec[off:off + n]) == [inst] * n and np.array_equal(like.x[off:off + n], np.asarray(l.x)) and np.array_equal(like.y[off:off + n], np.asarray(l.y))
                and np.array_equal(like.yerr[off:off + n], np.asarray(l.yerr)), "each-instrument-its-rows", inst=inst, what='composite')
        off += n
        m.same((l.gamma_param, l.jit_param), ('gamma_' + inst, 'jit_' + inst), "each-instrument-its-offset-and-jitter")
        if decorr and s.decorr:
            m.same(list(l.decorr_vars), list(s.decorr), "each-instrument-its-decorrelation", inst=inst)
            for d in s.decorr:
                got = np.asarray(l.decorr_vectors[d])
                m.check(got.shape == dv[d].shape and np.array_equal(got, dv[d]), "each-instrument-its-decorrelation", inst=inst, column=d)
        else:
            m.check(len(l.decorr_vars) == 0, "each-instrument-its-decorrelation", inst=inst)
        kind = radvel.likelihood.CeleriteLikelihood if s.gp == 'Celerite' else radvel.likelihood.GPLikelihood if s.gp else radvel.likelihood.RVLikelihood
        m.check(type(l) is kind, "each-instrument-its-kernel", inst=inst, got=type(l).__name__)
        if s.gp:
            m.same(list(l.hnames), f.h[inst], "each-instrument-its-kernel", inst=inst)
            m.same(l.kernel.name, s.gp, "each-instrument-its-kernel", inst=inst)
    m.same(off, len(like.x), "each-instrument-its-rows", what='total')
    # priors
    m.same([repr(p) for p in post.priors], [repr(eval(t, {'radvel': radvel})) for t in f.pri], "declared-priors")
    # the log-probability
    compare(m, f, post, decorr, want, tag)


def compare(m, f, post, decorr, vals, tag=''):
    s = f.s
    varies = gen.varies(s.P)
    wl = loglike(f, vals, varies, decorr)
    if not np.isfinite(wl):
        return
    gl = float(m.call(post.likelihood.logprob))
    tol = dict(rtol=1e-6, atol=1e-4) if s.gp or f.convert else dict(rtol=1e-9, atol=1e-7)
    m.close(gl, wl, "log-likelihood-of-the-file", tag=tag, gp=s.gp, decorr=decorr, index=f.idx, **tol)
    wp = prior_value(f, vals, s.P)
    ecc_ok = all(k.split('.')[-1].split('(')[0] not in ('EccentricityPrior', 'PositiveKPrior') for k in f.pri)
    gp = float(m.call(post.logprob))
    ok = ecc_ok or all(ref_ok(f, vals, t) for t in f.pri)
    w = wl + wp if ok else -np.inf
    if f.convert and not np.isfinite(w) != (not np.isfinite(gp)):
        return
    m.check(gp == w or abs(gp - w) <= tol['atol'] + tol['rtol'] * abs(w), "log-probability-of-the-file", got=gp, want=w, tag=tag, priors=f.pri)


def ref_ok(f, vals, t):
    """Do the priors on all eccentricities / semi-amplitudes allow these values? (upper limit .99)"""
    s = f.s
    for n in range(1, s.npl + 1):
        names = s.basis.split()
        if 'PositiveKPrior' in t:
            if 'k' in names and not vals['k%d' % n] > 0:
                return False
        if 'EccentricityPrior' in t:
            g = lambda k: vals['%s%d' % (k, n)]
            e = g('e') if 'e' in names else g('se') ** 2 if 'se' in names else np.hypot(g('ecosw'), g('esinw')) if 'ecosw' in names else g('secosw') ** 2 + g('sesinw') ** 2
            if not 0 <= e <= .99:
                return False
    return True


def build(m, rng, i, tag='', **kw):
    f = pieces(rng, i, m, **kw)
    priors(rng, f)
    f.convert = False
    others = [b for b in ref.BASES if b != f.s.basis]
    f.other = gen.pick(rng, others)
    if f.s.npl and rng.random() < .35:
        f.convert = True
        # conversions through small eccentricities lose nothing here: gentle orbits
    d = os.path.join(m.scratch, "setup%d%s" % (i, tag))
    write(rng, f, d, gen.pick(rng, ['sys%d' % i, 'HD_%d' % i, 's-%d' % i]), convert=f.convert)
    s = f.s
    m.describe(basis=s.basis, npl=s.npl, insts=f.insts, gp=s.gp, decorr=s.decorr, index=f.idx, mix=f.mix, foreign=f.foreign, convert=f.convert and f.other, linear=s.linear, priors=f.pri)
    return f, d


def u_setup(m, rng, i):
    f, d = build(m, rng, i)
    s = f.s
    if f.convert:
        same_orbit(m, f)
    text, csv = open(f.path, 'rb').read(), None
    decorr = bool(s.decorr) and bool(rng.random() < .6)
    cwd = os.getcwd()
    path = f.path
    rel = rng.random() < .3
    try:
        if rel:
            os.chdir(d)
            path = os.path.basename(path)
        P, post = init(m, path, decorr)
    finally:
        os.chdir(cwd)
    judge(m, f, P, post, decorr)
    m.same(P.starname, os.path.basename(f.path)[:-3], "module-of-the-file")
    m.same(sorted(os.listdir(d))[:1] and open(f.path, 'rb').read() == text, True, "file-unchanged")
    m.state("setup", (s.gp, bool(s.decorr), decorr, f.idx, f.mix, len(f.insts)))
    # other values of the free parameters
    names = list(post.name_vary_params())
    if names:
        x0 = post.get_vary_params()
        v = gen.values(s.P)
        x = np.array([v[k] * (1 + 1e-3 * rng.normal()) if k[:2] != 'ga' else v[k] + rng.normal() for k in names])
        lp = float(m.call(post.logprob_array, x))
        vals = dict(v, **dict(zip(names, x)))
        compare(m, f, post, decorr, vals, 'moved')
    # a second one is another one
    P2, post2 = init(m, f.path, decorr)
    judge(m, f, P2, post2, decorr, 'second')
    before = gen.snapshot(post2.params), np.array(post2.vector.vector), [repr(p) for p in post2.priors]
    for k in names:
        post.params[k].value = 77.
        post.params[k].vary = False
    post.vector.dict_to_vector()
    post.priors.append(radvel.prior.EccentricityPrior(1))
    post.likelihood.y[:] = 0
    after = gen.snapshot(post2.params), np.array(post2.vector.vector), [repr(p) for p in post2.priors]
    m.check(before[0] == after[0] and np.array_equal(before[1], after[1]) and before[2] == after[2], "analyses-are-independent")
    judge(m, f, P2, post2, decorr, 'after the first one changed')


def same_orbit(m, f):
    """The values a converted setup file has: the orbit in the fitting basis."""
    s = f.s
    for n in range(1, s.npl + 1):
        for b, v in ref.to_basis(s.orbits[n - 1], s.basis).items():
            s.P['%s%d' % (b, n)].value = v


def u_names(m, rng, i):
    """Files of one name in several directories, and several names in one, read in turns."""
    F = []
    for j in range(3):
        f = pieces(rng, i, m, gp=None, decorr=gen.pick(rng, [[], ['airmass']]), npl=int(rng.integers(0, 3)))
        priors(rng, f)
        f.convert, f.other = False, None
        sub, name = [('a', 'target'), ('b', 'target'), ('a', 'target2')][j]
        write(rng, f, os.path.join(m.scratch, "names%d" % i, sub), name)
        F.append(f)
    m.describe(insts=[f.insts for f in F], basis=[f.s.basis for f in F])
    out = []
    for j in [int(x) for x in rng.permutation(3)] + [int(x) for x in rng.integers(0, 3, 3)]:
        out.append((j, init(m, F[j].path, bool(F[j].s.decorr))))
    for j, (P, post) in out:
        m.same(P.__file__, F[j].path, "module-of-the-file")
        judge(m, F[j], P, post, bool(F[j].s.decorr), 'turns')
    m.state("turns", tuple(j for j, x in out))


def u_logjit(m, rng, i):
    """Jitters given by their logarithms."""
    f = pieces(rng, i, m, gp=None, npl=int(rng.integers(0, 3)), decorr=[])
    f.pri, f.convert, f.other = [], False, None
    s = f.s
    logs = [x for x in s.insts if rng.random() < .7] or s.insts[:1]
    d = os.path.join(m.scratch, "logjit%d" % i)
    ext = []
    for x in logs:
        p = s.P['jit_' + x]
        ext += ["del params['jit_%s']" % x, "params['logjit_%s'] = radvel.Parameter(value=%r, vary=%r)" % (x, float(np.log(p.value)), bool(p.vary))]
        p.mcmcscale = None
    write(rng, f, d, 'lj%d' % i, extra=ext)
    m.describe(insts=f.insts, logs=logs, basis=s.basis)
    P, post = init(m, f.path, False)
    m.same([k for k in post.params if k.startswith('logjit')], [], "logarithms-of-jitters-converted")
    for x in s.insts:
        p = post.params['jit_' + x]
        want = s.P['jit_' + x]
        m.check(abs(p.value - want.value) <= 1e-12 * want.value and p.vary == want.vary, "logarithms-of-jitters-converted", inst=x, got=(p.value, p.vary), want=(want.value, want.vary))
        want.value = p.value
    judge(m, f, P, post, False, 'logjit')


def u_refuse(m, rng, i):
    """Files that describe no analysis are refused."""
    how = gen.pick(rng, ['basis', 'no-data', 'no-decorr-vars', 'no-column', 'no-gamma', 'no-jit', 'no-priors', 'no-params', 'no-time-base', 'missing', 'kernel', 'no-hyper', 'foreign-basis'])
    gp = gen.pick(rng, ['QuasiPer', 'SqExp']) if how in ('kernel', 'no-hyper') else None
    f = pieces(rng, i, m, gp=gp, npl=int(rng.integers(1, 3)), decorr=['airmass'] if how == 'no-column' else [], insts=gen.pick(rng, [['k', 'j'], ['hires_rj', 'apf', 'lick']]))
    priors(rng, f)
    f.convert, f.other = False, None
    s = f.s
    inst = gen.pick(rng, f.insts)
    d = os.path.join(m.scratch, "refuse%d" % i)
    ext, drop, decorr = [], [], False
    if how == 'basis':
        ext.append("fitting_basis = %r" % gen.pick(rng, [b for b in ref.BASES if b != s.basis]))
    elif how == 'foreign-basis':
        ext.append("fitting_basis = 'per tp e w'")
    elif how == 'no-data':
        ext.append("data = data[data['tel'] != %r]" % inst)
    elif how == 'no-decorr-vars':
        decorr = True
    elif how == 'no-column':
        ext.append("del data['airmass']")
        decorr = True
    elif how == 'no-gamma':
        ext.append("del params['gamma_%s']" % inst)
    elif how == 'no-jit':
        ext.append("del params['jit_%s']" % inst)
    elif how == 'no-priors':
        drop.append("priors =")
    elif how == 'no-params':
        ext.append("del params")
    elif how == 'no-time-base':
        drop.append("time_base =")
    elif how == 'kernel':
        ext.append("kernel_name = {x: 'Matern' for x in instnames}")
    elif how == 'no-hyper':
        ext.append("hnames[%r] = hnames[%r][:-1]" % (inst, inst))
    write(rng, f, d, 'bad%d' % i, extra=ext, drop=drop)
    if how == 'missing':
        f.path = f.path[:-3] + '_.py'
    m.describe(how=how, insts=f.insts)
    try:
        with silent(), warnings.catch_warnings():
            warnings.simplefilter('ignore')
            radvel.utils.initialize_posterior(f.path, decorr=decorr)
        err = None
    except Exception as e:
        err = e
    m.check(err is not None, "no-analysis-is-refused", how=how)
    m.state("refused", (how, type(err).__name__))


UNITS = [("setup", u_setup, 500, 8000), ("names", u_names, 40, 600), ("logjit", u_logjit, 60, 600), ("refuse", u_refuse, 80, 1000)]
REQUIRED = ["each-instrument-its-rows", "each-instrument-its-decorrelation", "each-instrument-its-kernel", "declared-values", "declared-flags", "declared-priors",
            "log-likelihood-of-the-file", "log-probability-of-the-file", "analyses-are-independent", "module-of-the-file", "logarithms-of-jitters-converted", "no-analysis-is-refused"]
