"""Generators shared by the checks: orbits, times, data sets, posteriors."""
import numpy as np
from . import ref


def pick(rng, seq):
    return seq[int(rng.integers(len(seq)))]


def ecc(rng, emax=0.99, zero=True):
    m = rng.integers(8)
    if m == 0 and zero:
        return 0.0
    if m == 1:
        return float(10 ** rng.uniform(-12, -3))
    if m == 2:
        return float(min(emax, 1 - 10 ** rng.uniform(-2, -0.5)))
    if m == 3:
        return float(pick(rng, [emax, 0.5, 0.9, 0.1]))
    return float(rng.uniform(0, emax))


def omega(rng):
    m = rng.integers(6)
    if m == 0:
        return float(pick(rng, [0.0, np.pi / 2, np.pi, -np.pi / 2, 1.5 * np.pi, 2 * np.pi, -np.pi]))
    if m == 1:
        return float(rng.uniform(-4 * np.pi, 4 * np.pi))
    return float(rng.uniform(-np.pi, np.pi))


def period(rng):
    return float(10 ** rng.uniform(-0.7, 4))


def orbit(rng, emax=0.99, zero=True, epoch=None):
    per = period(rng)
    base = epoch if epoch is not None else float(pick(rng, [0.0, 2455000.0, 7000.0, -500.0]))
    tp = base + float(rng.uniform(-1, 1)) * per
    k = float(10 ** rng.uniform(-2, 3))
    return per, tp, ecc(rng, emax, zero), omega(rng), k


def times(rng, orb, n=None, special=True):
    per, tp = orb[0], orb[1]
    n = int(rng.integers(1, 60)) if n is None else n
    m = rng.integers(4)
    if m == 0:
        t = tp + per * rng.uniform(-2, 2, n)
    elif m == 1:
        t = tp + rng.uniform(-1000, 1000, n)
    elif m == 2:
        t = tp + per * (rng.integers(-50, 50, n) + rng.choice([0, .5, .25, .75, 1e-9, 1 - 1e-9, .5 + 1e-9], n))
    else:
        t = np.sort(tp + per * rng.uniform(0, 30, n))
    if special and rng.random() < .3 and n > 2:
        t[int(rng.integers(n))] = tp
    return t


# ---- systems -------------------------------------------------------------------------------------------------

def gentle_orbit(rng, epoch=0.0, emax=0.8, zero=False):
    per = float(10 ** rng.uniform(0.3, 2.5))
    e = float(rng.uniform(0.0 if zero else 0.01, emax))
    if zero and rng.random() < .3:
        e = 0.0
    return per, epoch + float(rng.uniform(-.5, .5)) * per, e, float(rng.uniform(-np.pi, np.pi)), float(10 ** rng.uniform(0, 2))


def params(radvel, orbits, basis, trend='none', letters=None, rng=None, vary=None):
    """radvel.Parameters for these orbits in this basis (values from the reference conversion)."""
    P = radvel.Parameters(len(orbits), basis=basis, planet_letters=letters)
    for n, orb in enumerate(orbits, 1):
        for name, v in ref.to_basis(orb, basis).items():
            fl = True if vary is None else bool(vary[int(rng.integers(len(vary)))])
            P['%s%d' % (name, n)] = radvel.Parameter(value=v, vary=fl)
    if trend in ('both', 'dvdt'):
        P['dvdt'] = radvel.Parameter(value=float(rng.normal(0, .05)), vary=True)
    if trend in ('both', 'curv'):
        P['curv'] = radvel.Parameter(value=float(rng.normal(0, 1e-3)), vary=True)
    return P


def snapshot(P):
    """Everything observable of a Parameters object."""
    return (type(P).__name__, P.basis.name, tuple(P.basis.params), P.basis.num_planets, tuple(P.planet_parameters), P.num_planets,
            None if P.planet_letters is None else tuple(sorted(P.planet_letters.items())),
            tuple((k, None if p.value is None else float(p.value), p.vary, p.mcmcscale, p.linear) for k, p in P.items()))


HYPER = {'gp_length': (5, 60), 'gp_amp': (2, 20), 'gp_per': (5, 40), 'gp_perlength': (.2, 2), 'gp_explength': (10, 80),
         'gp_B': (10, 200), 'gp_C': (.05, 2), 'gp_L': (10, 80), 'gp_Prot': (5, 40)}


class System:
    """A generated analysis: what was put in, and the radvel objects made of it."""
    pass


def system(radvel, rng, npl=None, basis=None, insts=None, trend=None, decorr=None, gp=None, vary=(0, 1), linear=None, nobs=None,
           order='random', emax=.8, letters=None, shuffle=True, orbits=None, epoch=None, noise=2.0, composite=None, data_from_model=True):
    """Random planets, basis, instruments, trend, decorrelation and GP; parameters declared in a random order."""
    s = System()
    s.npl = int(rng.integers(0, 4)) if npl is None else npl
    s.basis = basis or pick(rng, ref.BASES)
    s.insts = [str(x) for x in (insts if insts is not None else pick(rng, [['j'], ['k', 'j'], ['hires_rj', 'apf', 'lick'], ['a', 'ab']]))]
    s.trend = pick(rng, ['none', 'both', 'dvdt', 'curv']) if trend is None else trend
    s.time_base = float(pick(rng, [0., 2455000., 7000.])) if epoch is None else epoch
    s.orbits = orbits or [gentle_orbit(rng, s.time_base, emax) for _ in range(s.npl)]
    s.gp = gp
    P = radvel.Parameters(s.npl, basis=s.basis, planet_letters=letters)
    fl = lambda: bool(vary[int(rng.integers(len(vary)))])
    for n, orb in enumerate(s.orbits, 1):
        for name, v in ref.to_basis(orb, s.basis).items():
            P['%s%d' % (name, n)] = radvel.Parameter(value=v, vary=fl())
    extra = []
    if s.trend in ('both', 'dvdt'):
        extra.append(('dvdt', float(rng.normal(0, .05)), False))
    if s.trend in ('both', 'curv'):
        extra.append(('curv', float(rng.normal(0, 1e-3)), False))
    s.linear = {}
    for i in s.insts:
        lin = bool(rng.integers(2)) if linear is None else bool(linear)
        s.linear[i] = lin
        extra.append(('gamma_' + i, float(rng.normal(0, 20)), lin))
        extra.append(('jit_' + i, float(10 ** rng.uniform(-1, 1)), False))
    s.decorr = (list(pick(rng, [[], ['airmass'], ['air', 'airmass']])) if gp is None else []) if decorr is None else list(decorr)
    for i in s.insts:
        for d in s.decorr:
            extra.append(('c1_%s_%s' % (d, i), float(rng.normal(0, 2)), False))
    s.hnames = []
    if gp is not None:
        s.hnames = ref.KERNELS[gp]
        for h in s.hnames:
            extra.append((h, float(rng.uniform(*HYPER[h])), False))
    if order == 'random':
        extra = [extra[j] for j in rng.permutation(len(extra))]
    for name, v, lin in extra:
        P[name] = radvel.Parameter(value=v, vary=(False if lin and name.startswith('gamma') else fl()), linear=lin)
    s.P = P
    s.mod = radvel.RVModel(P, time_base=s.time_base)
    s.data, s.likes = {}, []
    for i in s.insts:
        n = (int(rng.integers(6, 30)) if gp is not None or rng.random() > .02 else int(rng.integers(200, 900))) if nobs is None else nobs
        t = s.time_base + np.sort(rng.uniform(-50, 150, n))
        if shuffle and rng.random() < .5:
            t = rng.permutation(t)
        err = 10 ** rng.uniform(-.5, 1, n)
        dv = {d: rng.normal(1.5, .4, n) for d in s.decorr}
        if data_from_model:
            y = ref.model_rv({k: p.value for k, p in P.items()}, s.basis, s.npl, t, s.time_base)[0] + P['gamma_' + i].value \
                + rng.normal(0, noise, n)
            for d in s.decorr:
                y = y + P['c1_%s_%s' % (d, i)].value * (dv[d] - dv[d].mean())
        else:
            y = rng.normal(0, 30, n)
        s.data[i] = (t, y, err, dv)
        s.likes.append(make_like(radvel, s, s.mod, i))
    s.like = s.likes[0] if len(s.likes) == 1 and not composite else radvel.likelihood.CompositeLikelihood(s.likes)
    return s


def make_like(radvel, s, mod, i):
    t, y, err, dv = s.data[i]
    if s.gp == 'Celerite':
        return radvel.likelihood.CeleriteLikelihood(mod, t, y, err, list(s.hnames), suffix='_' + i)
    if s.gp is not None:
        return radvel.likelihood.GPLikelihood(mod, t, y, err, hnames=list(s.hnames), suffix='_' + i, kernel_name=s.gp)
    return radvel.likelihood.RVLikelihood(mod, t, y, err, suffix='_' + i, decorr_vars=list(s.decorr), decorr_vectors=dv)


def marginalised(s, vals_vary, i):
    return s.linear[i] and not vals_vary.get('gamma_' + i, False)


def inst_loglike(s, vals, i, varies=None):
    """Independent log-likelihood of one instrument at a dictionary of values."""
    t, y, err, dv = s.data[i]
    r = y - ref.model_rv(vals, s.basis, s.npl, t, s.time_base)[0]
    for d in s.decorr:
        r = r - vals['c1_%s_%s' % (d, i)] * (dv[d] - np.mean(dv[d]))
    if s.gp is not None:
        K = ref.kernel(s.gp, vals, t, t) + np.diag(err ** 2 + vals['jit_' + i] ** 2)
        return ref.mvn_loglike(r - vals['gamma_' + i], K)
    var = err ** 2 + vals['jit_' + i] ** 2
    if marginalised(s, varies or {}, i):
        # integral of the Gaussian density over the offset, flat measure
        w = 1 / var
        W = w.sum()
        z = (w * r).sum() / W
        return float(-.5 * (w * (r - z) ** 2).sum() - .5 * np.log(2 * np.pi * var).sum() + .5 * np.log(2 * np.pi / W))
    return ref.gauss_loglike(r - vals['gamma_' + i], var)


def loglike(s, vals, varies=None):
    return sum(inst_loglike(s, vals, i, varies) for i in s.insts)


def values(P):
    return {k: (None if p.value is None else float(p.value)) for k, p in P.items()}


def varies(P):
    return {k: bool(p.vary) for k, p in P.items()}
