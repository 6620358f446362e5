"""C05: shadow model of parameter state, checked over random operation histories on real posteriors."""
import copy
import numpy as np
import radvel
from .. import ref, gen

ANCHORS = ["model.py", "likelihood.py", "posterior.py"]
RULE = ("0-3 planets in every basis, 1-3 instruments (single or composite likelihood), trends, decorrelation and GP hyperparameters declared in "
        "any order, random free/fixed flags changed before the posterior is built; then histories of 12-30 operations "
        "(set, set fast, read, evaluate, edit dictionary + synchronise, read back, rebuild the posterior, unrelated evaluations).")
ASSUMPTIONS = ["direct edits of Parameter.value become visible to evaluations after vector.dict_to_vector(), and values set with fast=True "
               "become visible in the dictionary after vector.vector_to_dict(): the two documented synchronisation calls",
               "flags are switched before the posterior is built (or followed by building a new one)"]
CASE_CPU_LIMIT = 200


def build(m, rng):
    gp = gen.pick(rng, [None, None, None, 'SqExp', 'QuasiPer', 'Per', 'Celerite'])
    insts = gen.pick(rng, [['j'], ['k', 'j'], ['hires_rj', 'apf', 'lick'], ['a', 'ab']]) if gp is None else gen.pick(rng, [['j'], ['hires_k']])
    s = gen.system(radvel, rng, npl=int(gen.pick(rng, [0, 1, 1, 2, 3])), insts=insts, gp=gp, nobs=int(rng.integers(5, 12)),
                   emax=.6, composite=rng.random() < .3, linear=False if gp else None)
    if rng.random() < .4:               # a parameter of the user's own
        s.P['my_param'] = radvel.Parameter(value=float(rng.normal()), vary=bool(rng.integers(2)))
        s.mod = radvel.RVModel(s.P, time_base=s.time_base)
        s.likes = [gen.make_like(radvel, s, s.mod, i) for i in s.insts]
        s.like = s.likes[0] if len(s.likes) == 1 else radvel.likelihood.CompositeLikelihood(s.likes)
    return s


def expected_rest(s, vals, vary):
    return gen.loglike(s, vals, vary)


def tol(x):
    return 1e-7 * (1 + abs(x)) if np.isfinite(x) else 0


class Shadow:
    """What the posterior's state must be."""
    def __init__(self, P):
        self.val = gen.values(P)
        self.vary = gen.varies(P)

    def free(self):
        return {k for k, f in self.vary.items() if f}


def observe(m, post, s, sh, what):
    """Names, array and dictionary name the same parameters with the same values."""
    names = m.call(post.name_vary_params)
    arr = np.array(m.call(post.get_vary_params))
    m.check(len(names) == len(arr) == len(set(names)), "names-and-values-same-length", after=what, names=names, arr=arr)
    m.check(set(names) == sh.free(), "free-names-are-the-free-parameters", after=what, names=names, want=sorted(sh.free()))
    for n, v in zip(names, arr):
        m.check(n in sh.val and float(v) == float(sh.val[n]), "value-under-its-own-name", name=n, got=v, want=sh.val.get(n), after=what)
    ln = m.call(post.likelihood.name_vary_params)
    m.same(list(ln), list(names), "likelihood-and-posterior-agree", after=what)
    m.close(m.call(post.likelihood.get_vary_params), arr, "likelihood-and-posterior-agree", rtol=0, after=what)
    vec = post.vector.vector
    for k, v in sh.val.items():
        ix = post.vector.indices[k]
        m.check(float(vec[ix][0]) == float(v) and bool(vec[ix][1]) == sh.vary[k] and post.vector.names[ix] == k,
                "vector-row-is-the-parameter", name=k, got=list(vec[ix]), want=(v, sh.vary[k]), names=post.vector.names[ix], after=what)


def dict_matches(m, post, sh, what, stale=()):
    for k, v in sh.val.items():
        if k not in stale:
            m.check(float(post.params[k].value) == float(v), "dictionary-holds-the-value", name=k, got=post.params[k].value, want=v, after=what)
        m.check(bool(post.params[k].vary) == sh.vary[k], "flags-unchanged", name=k, after=what)


def proposal(rng, sh, names, s):
    out = []
    for n in names:
        v = sh.val[n]
        if n.startswith(('jit', 'gp')):
            out.append(abs(v) * float(rng.uniform(.5, 1.5)) + .01)
        elif n.startswith(('secosw', 'sesinw', 'ecosw', 'esinw')):
            out.append(float(rng.uniform(-.4, .4)))
        elif n.startswith('se') or (n[0] == 'e' and n[1:].isdigit()):
            out.append(float(rng.uniform(.05, .7)))
        else:
            out.append(v + float(rng.normal(0, .1)))
    return out


def u_history(m, rng, i):
    s = build(m, rng)
    P = s.P
    # switch flags and values before the posterior exists, in every way the interface offers
    toggles = []
    for k in list(P):
        if rng.random() < .3:
            P[k].vary = not P[k].vary
            if P[k].linear and P[k].vary:
                P[k].linear = False
                s.linear[k[6:]] = False
            toggles.append(k)
    if rng.random() < .3:
        s.like.list_vary_params()
    if rng.random() < .2:
        [l.list_vary_params() for l in s.likes]
        m.call(s.like.get_vary_params)
    post = m.call(radvel.posterior.Posterior, s.like)
    sh = Shadow(P)
    m.describe(basis=s.basis, npl=s.npl, insts=s.insts, gp=s.gp, trend=s.trend, decorr=s.decorr, toggled=toggles, free=sorted(sh.free()))
    m.state("configuration", (s.basis, s.npl, len(s.insts), s.gp, s.trend, len(s.decorr), 'my_param' in P))
    observe(m, post, s, sh, "construction")
    dict_matches(m, post, sh, "construction")
    names = m.call(post.name_vary_params)
    seen = []
    stale = set()
    for step in range(int(rng.integers(12, 31)) if not m.quick else int(rng.integers(8, 14))):
        op = gen.pick(rng, ['set', 'set', 'fast', 'eval', 'eval', 'edit', 'todict', 'rebuild', 'noise', 'recall', 'wrong', 'likeset', 'vector'])
        m.event("op:" + op)
        if op in ('set', 'fast', 'likeset'):
            x = proposal(rng, sh, names, s)
            tgt = post if op != 'likeset' else post.likelihood
            arg = x if rng.random() < .5 else np.array(x)
            m.call(tgt.set_vary_params, arg, fast=(op == 'fast'))
            m.check(list(arg) == x, "argument-unchanged")
            sh.val.update(zip(names, x))
            stale = set(names) if op == 'fast' else set()
        elif op == 'eval':
            x = proposal(rng, sh, names, s)
            if s.gp != 'Celerite' or all(v > 0 for n, v in zip(names, x) if n.startswith('gp')):
                lp = float(m.call(post.logprob_array, np.array(x)))
                sh.val.update(zip(names, x))
                stale = set(names)
                track_gamma(post, s, sh)
                want = gen.loglike(s, sh.val, sh.vary)
                m.close(lp, want, "logprob-of-the-array", rtol=0, atol=tol(want) * (30 if s.gp else 1), op=op)
                seen.append((x, dict(sh.val), lp))
        elif op == 'recall' and seen:
            x, val, lp0 = seen[int(rng.integers(len(seen)))]
            fixed_same = all(val[k] == sh.val[k] for k in sh.val if not sh.vary[k] and not (k.startswith('gamma_') and gen.marginalised(s, sh.vary, k[6:])))
            lp = float(m.call(post.logprob_array, np.array(x)))
            sh.val.update(zip(names, x))
            stale = set(names)
            track_gamma(post, s, sh)
            if fixed_same:
                m.close(lp, lp0, "earlier-evaluations-do-not-matter", rtol=1e-13, atol=1e-12)
            want = gen.loglike(s, sh.val, sh.vary)
            m.close(lp, want, "logprob-of-the-array", rtol=0, atol=tol(want) * (30 if s.gp else 1), op=op)
        elif op == 'edit':
            m.call(post.vector.vector_to_dict)
            stale = set()
            k = gen.pick(rng, sorted(sh.val))
            if gen.marginalised(s, sh.vary, k[6:]) if k.startswith('gamma_') else False:
                continue
            v = proposal(rng, sh, [k], s)[0]
            post.params[k].value = v
            m.call(post.vector.dict_to_vector)
            sh.val[k] = v
        elif op == 'vector':
            # any value, free or fixed, given to the vector
            k = gen.pick(rng, sorted(sh.val))
            if gen.marginalised(s, sh.vary, k[6:]) if k.startswith('gamma_') else False:
                continue
            v = proposal(rng, sh, [k], s)[0]
            post.vector.vector[post.vector.indices[k]][0] = v
            m.call(post.vector.vector_to_dict)
            sh.val[k] = v
            stale = set()
        elif op == 'todict':
            m.call(post.vector.vector_to_dict)
            stale = set()
        elif op == 'rebuild':
            m.call(post.vector.vector_to_dict)
            stale = set()
            for k in list(sh.val):
                if rng.random() < .2 and not P[k].linear:
                    post.params[k].vary = not post.params[k].vary
                    sh.vary[k] = not sh.vary[k]
                    seen = []
            post = m.call(radvel.posterior.Posterior, post.likelihood)
            names = m.call(post.name_vary_params)
        elif op == 'noise':
            gen.pick(rng, [lambda: m.call(post.residuals), lambda: m.call(post.likelihood.errorbars), lambda: m.call(post.bic),
                           lambda: m.call(post.logprob), lambda: m.call(repr, post), lambda: m.call(post.likelihood.logprob),
                           lambda: m.call(post.likelihood.model, s.data[s.insts[0]][0])])()
            track_gamma(post, s, sh)
            stale = stale if rng.random() < 0 else set(sh.val)      # repr synchronises, GP evaluation writes hyperparameters
        elif op == 'wrong':
            snap = post.vector.vector.copy()
            for bad in ([0.5] * (len(names) + 1), [0.5] * (len(names) - 1) if len(names) else None):
                if bad is None:
                    continue
                m.raises(post.set_vary_params, bad, _mon="wrong-length-refused")
                post.vector.vector[:] = snap
            m.call(post.vector.vector_to_dict)
            stale = set()
        track_gamma(post, s, sh)
        observe(m, post, s, sh, op)
        dict_matches(m, post, sh, op, stale)
    m.call(post.vector.vector_to_dict)
    track_gamma(post, s, sh)
    dict_matches(m, post, sh, "end")
    m.sample(basis=s.basis, names=names)


def track_gamma(post, s, sh):
    """Analytically marginalised offsets are the one value evaluations recompute (by documentation)."""
    for i in s.insts:
        if gen.marginalised(s, sh.vary, i):
            sh.val['gamma_' + i] = float(post.vector.vector[post.vector.indices['gamma_' + i]][0])
            post.params['gamma_' + i].value = sh.val['gamma_' + i]


def u_fresh(m, rng, i):
    """The log-probability at an array equals that of an identical posterior built from scratch at those values."""
    s = build(m, rng)
    post = m.call(radvel.posterior.Posterior, s.like)
    names = m.call(post.name_vary_params)
    sh = Shadow(s.P)
    m.describe(basis=s.basis, npl=s.npl, insts=s.insts, gp=s.gp, names=names)
    for _ in range(4):
        x = proposal(rng, sh, names, s)
        lp = float(m.call(post.logprob_array, x))
        s2 = copy.copy(s)
        s2.P = radvel.Parameters(s.npl, basis=s.basis)
        m.same(list(s2.P), ['%s%d' % (q, n) for n in range(1, s.npl + 1) for q in s.basis.split()], "new-parameters-are-those-of-the-basis")
        for k in s.P:
            s2.P[k] = radvel.Parameter(value=s.P[k].value, vary=s.P[k].vary, linear=s.P[k].linear)
        for n, v in zip(names, x):
            s2.P[n].value = v
        mod = radvel.RVModel(s2.P, time_base=s.time_base)
        likes = [gen.make_like(radvel, s2, mod, k) for k in s.insts]
        p2 = radvel.posterior.Posterior(likes[0] if len(likes) == 1 else radvel.likelihood.CompositeLikelihood(likes))
        m.same(m.call(p2.name_vary_params), names, "same-names-when-rebuilt")
        m.close(m.call(p2.get_vary_params), x, "same-values-when-rebuilt", rtol=0)
        m.close(lp, float(m.call(p2.logprob)), "same-logprob-when-rebuilt", rtol=1e-12, atol=1e-10)


def u_late(m, rng, i):
    """Likelihoods that add their own parameters (defaults), and flags given after the likelihood exists."""
    basis = gen.pick(rng, ref.BASES)
    npl = int(rng.integers(0, 3))
    orb = [gen.gentle_orbit(rng, 0., .6) for _ in range(npl)]
    P = gen.params(radvel, orb, basis, trend=gen.pick(rng, ['none', 'both', 'dvdt', 'curv']), rng=rng, vary=(0, 1))
    mod = radvel.RVModel(P)
    n = 8
    insts = gen.pick(rng, [['j'], ['k', 'j'], ['x', 'y', 'z']])
    likes = []
    for k in insts:
        t = np.sort(rng.uniform(0, 50, n))
        likes.append(m.call(radvel.likelihood.RVLikelihood, mod, t, rng.normal(0, 10, n), np.ones(n), suffix='_' + k))
    for k in insts:
        m.check('gamma_' + k in P and 'jit_' + k in P, "likelihood-declares-its-parameters")
        P['gamma_' + k] = radvel.Parameter(value=float(rng.normal()), vary=bool(rng.integers(2)))
        P['jit_' + k] = radvel.Parameter(value=float(rng.uniform(.1, 2)), vary=bool(rng.integers(2)))
    if rng.random() < .5:
        for k in P:
            P[k].vary = bool(rng.integers(2))
    like = likes[0] if len(likes) == 1 and rng.random() < .5 else m.call(radvel.likelihood.CompositeLikelihood, likes)
    post = m.call(radvel.posterior.Posterior, like)
    m.describe(basis=basis, npl=npl, insts=insts, vary=gen.varies(P))
    sh = Shadow(P)
    s = gen.System()
    s.npl, s.basis, s.insts, s.time_base, s.decorr, s.gp, s.linear = npl, basis, insts, 0, [], None, {k: False for k in insts}
    s.data = {k: (l.x, l.y, l.yerr, {}) for k, l in zip(insts, likes)}
    observe(m, post, s, sh, "late")
    names = m.call(post.name_vary_params)
    for _ in range(3):
        x = proposal(rng, sh, names, s)
        lp = float(m.call(post.logprob_array, x))
        sh.val.update(zip(names, x))
        want = gen.loglike(s, sh.val)
        m.close(lp, want, "logprob-of-the-array", rtol=0, atol=tol(want))
        observe(m, post, s, sh, "late eval")


UNITS = [("history", u_history, 1100, 4500), ("fresh", u_fresh, 300, 1200), ("late", u_late, 400, 1500)]
REQUIRED = ["free-names-are-the-free-parameters", "value-under-its-own-name", "vector-row-is-the-parameter", "dictionary-holds-the-value",
            "logprob-of-the-array", "earlier-evaluations-do-not-matter", "same-logprob-when-rebuilt", "wrong-length-refused"]
