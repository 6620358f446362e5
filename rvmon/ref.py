"""Independent reference computations (oracles): none of this uses radvel."""
import numpy as np

LD = np.longdouble
TWOPI = 2 * np.arctan2(LD(0), LD(-1))
PI = np.arctan2(LD(0), LD(-1))


def ecc_anomaly(M, e):
    """E with E - e sin E = M, M in [0, 2pi): bisection in extended precision, polished by Newton."""
    M = np.asarray(M, dtype=LD)
    e = np.broadcast_to(np.asarray(e, dtype=LD), M.shape)
    lo = M - e
    hi = M + e
    for _ in range(75):
        mid = (lo + hi) / 2
        big = mid - e * np.sin(mid) > M
        hi = np.where(big, mid, hi)
        lo = np.where(big, lo, mid)
    return (lo + hi) / 2


def mean_anomaly(t, tp, per):
    ph = (np.asarray(t, dtype=LD) - LD(tp)) / LD(per)
    return TWOPI * (ph - np.floor(ph)), ph


def true_anomaly(t, tp, per, e):
    M, ph = mean_anomaly(t, tp, per)
    E = ecc_anomaly(M, e)
    e = LD(e)
    cn = (np.cos(E) - e) / (1 - e * np.cos(E))
    sn = np.sqrt(1 - e * e) * np.sin(E) / (1 - e * np.cos(E))
    return np.arctan2(sn, cn), E, ph


def rv(t, per, tp, e, w, k):
    """Velocity and the tolerance that float64 evaluation of the mean anomaly leaves room for (element-wise)."""
    t = np.asarray(t, dtype=float)
    nu, E, ph = true_anomaly(t, tp, per, e)
    e = LD(e)
    v = LD(k) * (np.cos(nu + LD(w)) + e * np.cos(LD(w)))
    ce = 1 - e * np.cos(E)
    dnudM = np.sqrt(1 - e * e) / ce ** 2
    dM = TWOPI * LD(2.3e-16) * (np.abs(ph) + 1) * 6 + LD(3e-12)
    # near apastron the half-angle tangent is large: its relative error is ~eps * tan
    tol = abs(float(k)) * (np.abs(np.sin(nu + LD(w))) * dnudM * dM + (dnudM * dM) ** 2 + dM * 2 + LD(1e-13) * (1 + abs(w)))
    return v.astype(float), tol.astype(float)


def angle_diff(a, b):
    d = np.asarray(a, dtype=float) - np.asarray(b, dtype=float)
    return np.abs(np.arctan2(np.sin(d), np.cos(d)))


def tp_from_tc(tc, per, e, w):
    """A periastron time of the orbit whose inferior conjunction is tc."""
    f = LD(np.pi) / 2 - LD(w)
    e = LD(e)
    E = np.arctan2(np.sqrt(1 - e * e) * np.sin(f), e + np.cos(f))
    return LD(tc) - LD(per) / TWOPI * (E - e * np.sin(E))


def tc_from_tp(tp, per, e, w):
    f = LD(np.pi) / 2 - LD(w)
    e = LD(e)
    E = np.arctan2(np.sqrt(1 - e * e) * np.sin(f), e + np.cos(f))
    return LD(tp) + LD(per) / TWOPI * (E - e * np.sin(E))


def ts_from_tp(tp, per, e, w):
    f = 3 * LD(np.pi) / 2 - LD(w)
    e = LD(e)
    E = np.arctan2(np.sqrt(1 - e * e) * np.sin(f), e + np.cos(f))
    E = np.mod(E, TWOPI)
    return LD(tp) + LD(per) / TWOPI * (E - e * np.sin(E))


BASES = ['per tp e w k', 'per tc secosw sesinw logk', 'per tc secosw sesinw k', 'per tc ecosw esinw k', 'per tc e w k',
         'logper tc secosw sesinw k', 'logper tc secosw sesinw logk', 'per tc se w k', 'logper tp e w logk']


def to_basis(orb, basis):
    """Orbit (per, tp, e, w, k) -> values of the basis, written from the basis' definition."""
    per, tp, e, w, k = [float(x) for x in orb]
    out = {}
    for name in basis.split():
        out[name] = {
            'per': lambda: per, 'logper': lambda: np.log(per), 'tp': lambda: tp,
            'tc': lambda: float(tc_from_tp(tp, per, e, w)), 'e': lambda: e, 'se': lambda: np.sqrt(e), 'w': lambda: w,
            'secosw': lambda: np.sqrt(e) * np.cos(w), 'sesinw': lambda: np.sqrt(e) * np.sin(w),
            'ecosw': lambda: e * np.cos(w), 'esinw': lambda: e * np.sin(w), 'k': lambda: k,
            'logk': lambda: np.log(k)}[name]()
    return out


def from_basis(vals, basis):
    """Values of a basis -> orbit (per, tp, e, w, k)."""
    names = basis.split()
    g = lambda n: float(vals[n])
    per = g('per') if 'per' in names else np.exp(g('logper'))
    k = g('k') if 'k' in names else np.exp(g('logk'))
    if 'e' in names:
        e, w = g('e'), g('w')
    elif 'se' in names:
        e, w = g('se') ** 2, g('w')
    elif 'secosw' in names:
        e, w = g('secosw') ** 2 + g('sesinw') ** 2, np.arctan2(g('sesinw'), g('secosw'))
    else:
        e, w = np.hypot(g('ecosw'), g('esinw')), np.arctan2(g('esinw'), g('ecosw'))
    tp = g('tp') if 'tp' in names else float(tp_from_tc(g('tc'), per, e, w))
    return per, tp, e, w, k


def gauss_loglike(res, var):
    return float(-0.5 * np.sum(res ** 2 / var) - 0.5 * np.sum(np.log(2 * np.pi * var)))


def mvn_loglike(r, K):
    L = np.linalg.cholesky(K)
    z = np.linalg.solve(L, r)
    return float(-0.5 * z @ z - np.sum(np.log(np.diag(L))) - 0.5 * len(r) * np.log(2 * np.pi))


def model_rv(vals, basis, npl, t, time_base, planets=None, trend=True):
    """Velocity of a dictionary of parameter values and its tolerance: superposition of single orbits plus trend."""
    t = np.asarray(t, dtype=float)
    v, tol = np.zeros(len(t)), np.zeros(len(t))
    for n in (range(1, npl + 1) if planets is None else planets):
        row = {k: vals['%s%d' % (k, n)] for k in basis.split()}
        per, tp, e, w, k = from_basis(row, basis)
        a, ta = rv(t, per, tp, e, w, k)
        # room for float64 rounding in the conversion of the elements
        d = np.abs(a - rv(t, per, tp + 6e-16 * (abs(tp) + per), e, w, k)[0]) + np.abs(a - rv(t, per * (1 + 1e-15), tp, e, w, k)[0]) \
            + np.abs(a - rv(t, per, tp, min(e + 1e-14, 1 - 1e-15), w + 1e-14, k)[0])
        if e == 0 or e < 1e-7:      # omega (and with it periastron) is ill-defined here, their combination is not
            d = d + 1e-7 * abs(k) * (e > 0)
        v, tol = v + a, tol + ta + 8 * d
    if trend:
        dt = t - time_base
        d1, d2 = float(vals.get('dvdt', 0) or 0), float(vals.get('curv', 0) or 0)
        v = v + d1 * dt + d2 * dt ** 2
        tol = tol + 1e-14 * (np.abs(d1 * dt) + np.abs(d2) * dt ** 2)
    return v, tol + 1e-13


def kernel(name, h, t1, t2):
    """Documented covariance functions, written from the documentation."""
    d = np.abs(np.asarray(t1, float)[:, None] - np.asarray(t2, float)[None, :])
    if name == 'SqExp':
        return h['gp_amp'] ** 2 * np.exp(-d ** 2 / h['gp_length'] ** 2)
    if name == 'Per':
        return h['gp_amp'] ** 2 * np.exp(-np.sin(np.pi * d / h['gp_per']) ** 2 / (2 * h['gp_length'] ** 2))
    if name == 'QuasiPer':
        if 0 in (h['gp_amp'], h['gp_per'], h['gp_explength'], h['gp_perlength']):
            return np.zeros(d.shape)
        return h['gp_amp'] ** 2 * np.exp(-d ** 2 / h['gp_explength'] ** 2
                                         - np.sin(np.pi * d / h['gp_per']) ** 2 / (2 * h['gp_perlength'] ** 2))
    if name == 'Celerite':
        return h['gp_B'] / (2 + h['gp_C']) * np.exp(-d / h['gp_L']) * (np.cos(2 * np.pi * d / h['gp_Prot']) + 1 + h['gp_C'])
    raise KeyError(name)


KERNELS = {'SqExp': ['gp_length', 'gp_amp'], 'Per': ['gp_per', 'gp_length', 'gp_amp'],
           'QuasiPer': ['gp_per', 'gp_perlength', 'gp_explength', 'gp_amp'], 'Celerite': ['gp_B', 'gp_C', 'gp_L', 'gp_Prot']}
