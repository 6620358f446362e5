"""C11: bisimulation of a posterior and its copies (file, pickle, deepcopy, other process), and the pipeline status file."""
import copy, io, json, os, pickle, subprocess, sys
import numpy as np
import pandas as pd
import dill
import radvel
import radvel.driver
from radvel import prior as rp
from .. import ref, gen
from . import c10
from ..core import Skip, VERIF_ROOT

ANCHORS = ["posterior.py", "model.py", "likelihood.py", "gp.py", "prior.py"]
RULE = ("Posteriors of every likelihood type (RV, composite, marginalised offsets, decorrelation, all GP kernels) with up to 6 priors of every class and "
        "user-defined functions, brought into a random state by a history of evaluations, settings, switched flags and predictions; copied by "
        "file, pickle, dill, deepcopy or a fresh interpreter; then one random sequence of operations applied to each copy, in turn. Status files: "
        "random sequences of steps writing sections and values.")
ASSUMPTIONS = ["values in a status file are those the pipeline records: numbers, booleans, file names, printed lists (surrounding blanks are not kept)",
               "user-defined prior functions do not themselves carry mutable state"]


def build(rng):
    gp = gen.pick(rng, [None, None, None, None, 'QuasiPer', 'SqExp', 'Per', 'Celerite'])
    letters = gen.pick(rng, [None, {1: 'd', 2: 'b', 3: 'x'}])
    s = gen.system(radvel, rng, npl=int(gen.pick(rng, [0, 1, 1, 2, 3])), gp=gp, emax=.6, nobs=int(rng.integers(5, 12)), letters=letters,
                   insts=None if gp is None else gen.pick(rng, [['j'], ['j', 'k']]), linear=False if gp else None)
    post = radvel.posterior.Posterior(s.like)
    ps = [p for p, f in c10.priors(rng, s, int(rng.integers(0, 7)))]
    post.priors = ps
    if rng.random() < .5 and s.P:
        post.uparams = {k: float(rng.uniform(.1, 1)) for k in s.P}
        post.medparams = {k: p.value for k, p in s.P.items()}
    if rng.random() < .3:
        post.derived = pd.DataFrame({'mpsini1': rng.normal(size=3)}, index=[.159, .5, .841])
    for k in s.P:
        if rng.random() < .2:
            s.P[k].mcmcscale = float(rng.uniform(.1, 1))
    post.vector.dict_to_vector()
    return s, post


def observe(post, s, xs, tt):
    """Everything a user can see, as a dictionary of arrays/values."""
    o = {}
    np.seterr(all='ignore')
    o['params'] = gen.snapshot(post.params)
    o['names'] = list(post.name_vary_params())
    o['listed'] = [list(post.model.list_vary_params()), list(post.model.list_params()), list(post.params)]
    o['free'] = np.array(post.get_vary_params(), float)
    o['vector'] = np.array(post.vector.vector, float)
    o['indices'] = sorted(post.vector.indices.items())
    o['vnames'] = list(post.vector.names)
    o['priors'] = [(type(p).__name__, repr(p)) for p in post.priors if not isinstance(p, rp.UserDefinedPrior)]
    o['nprior'] = len(post.priors)
    o['logprob'] = float(post.logprob())
    o['like'] = float(post.likelihood.logprob())
    for n, x in enumerate(xs):
        if len(x) == len(o['free']):
            o['logprob_array%d' % n] = float(post.logprob_array(np.array(x)))
            post.set_vary_params(list(o['free']))
    o['residuals'] = np.array(post.residuals(), float)
    o['errorbars'] = np.array(post.likelihood.errorbars(), float)
    for k in ('x', 'y', 'yerr'):
        o[k] = np.array(getattr(post.likelihood, k), float)
    o['telvec'] = [str(v) for v in post.likelihood.telvec]
    o['model'] = np.array(post.likelihood.model(tt), float)
    o['time_base'] = float(post.likelihood.model.time_base)
    o['bicaic'] = np.array([post.bic(), post.aic()], float)
    for a in ('uparams', 'medparams', 'derived'):
        v = getattr(post, a, None)
        if isinstance(v, pd.DataFrame):
            o[a] = v.values
        elif isinstance(v, dict):
            o[a] = sorted(v.items())
        else:
            o[a] = v
    members = getattr(post.likelihood, 'like_list', [post.likelihood])
    for n, lk in enumerate(members):
        o['member%d' % n] = np.concatenate([np.asarray(lk.x, float), np.asarray(lk.y, float), np.asarray(lk.yerr, float), [lk.logprob()]])
        o['suffix%d' % n] = (lk.suffix, lk.gamma_param, lk.jit_param, type(lk).__name__, lk.params is post.params, lk.vector is post.vector,
                             lk.model is post.model)
        if hasattr(lk, 'predict'):
            try:
                mu, sd = lk.predict(tt)
                o['predict%d' % n] = np.concatenate([np.asarray(mu, float), np.asarray(sd, float)])
            except np.linalg.LinAlgError:
                o['predict%d' % n] = None
    o['repr'] = repr(post.likelihood)
    o['tex'] = sorted(post.params.tex_labels().items())
    return o


def equal(m, a, b, mon, **detail):
    m.same(sorted(map(str, a)), sorted(map(str, b)), mon, what="fields", **detail)
    for k in a:
        if k not in b:
            continue
        if isinstance(a[k], (float, np.ndarray)) and isinstance(b[k], (float, np.ndarray)):
            tol = 1e-6 if str(k).startswith('predict') else 1e-9
            m.close(b[k], a[k], mon, rtol=1e-10, atol=tol, equal_nan=True, what=k, **detail)
        else:
            m.same(b[k], a[k], mon, what=k, **detail)


def plan(rng, s, post, n):
    """A sequence of operations, as data, so that it can be applied to any copy."""
    names = sorted(s.P)
    ops = []
    for _ in range(n):
        k = gen.pick(rng, ['eval', 'eval', 'set', 'dict', 'v2d', 'prior', 'residuals', 'model', 'predict', 'switch', 'bic', 'perturb', 'newprior', 'letter'])
        ops.append((k, gen.pick(rng, names), float(rng.normal()), int(rng.integers(1 << 30))))
    return ops


def run_op(post, s, op, out, reproducible):
    k, name, z, seed = op
    rng = np.random.default_rng(seed)
    np.seterr(all='ignore')
    x = np.array(post.get_vary_params(), float)
    y = x * (1 + .01 * rng.normal(size=len(x)))
    if k == 'eval':
        out.append(float(post.logprob_array(y)))
    elif k == 'set':
        post.set_vary_params(list(y))
        out.append(float(post.logprob()))
    elif k == 'dict':
        post.params[name].value = post.params[name].value * (1 + .003 * z)
        post.vector.dict_to_vector()
        out.append(float(post.logprob()))
    elif k == 'v2d':
        post.vector.vector_to_dict()
        out.append(gen.values(post.params))
    elif k == 'prior' and post.priors:
        p = post.priors[seed % len(post.priors)]
        if isinstance(p, rp.Gaussian):
            p.mu = p.mu + .01 * z
        elif isinstance(p, rp.HardBounds):
            p.maxval = p.maxval + .5
        out.append(float(post.logprob()))
    elif k == 'newprior':
        post.priors.append(rp.Gaussian(name, float(post.params[name].value), 1.5))
        out.append(float(post.logprob()))
    elif k == 'residuals':
        out.append(np.array(post.residuals(), float))
    elif k == 'model':
        out.append(np.array(post.likelihood.model(s.time_base + np.linspace(0, 30, 5)), float))
    elif k == 'predict':
        for lk in getattr(post.likelihood, 'like_list', [post.likelihood]):
            if hasattr(lk, 'predict'):
                try:
                    out.append(np.array(lk.predict(s.time_base + np.linspace(-3, 40, 4))[0], float))
                except np.linalg.LinAlgError:
                    out.append(None)
    elif k == 'switch':
        post.params[name].vary = not post.params[name].vary
        post.vector.dict_to_vector()
        post.list_vary_params()
        post.likelihood.list_vary_params()
        out.append(list(post.name_vary_params()))
    elif k == 'bic':
        out.append(np.array([post.bic(), post.aic()], float))
    elif k == 'perturb':
        lk = getattr(post.likelihood, 'like_list', [post.likelihood])[0]
        lk.y[seed % len(lk.y)] += z
        out.append(float(lk.logprob()))
    elif k == 'letter' and post.params.planet_letters:
        post.params.planet_letters[1] = 'q'
        out.append(sorted(post.params.tex_labels().items()))


METHODS = ['file', 'file', 'deepcopy', 'deepcopy', 'dill', 'pickle', 'chain', 'deepcopy-likelihood']


def make_copy(m, post, how, tag):
    if how == 'file':
        fn = os.path.join(m.scratch, "post %s.pkl" % tag)
        m.call(post.writeto, fn)
        r = m.call(radvel.posterior.load, fn)
        os.remove(fn)
        return r
    if how == 'deepcopy':
        return m.call(copy.deepcopy, post)
    if how == 'dill':
        return m.call(dill.loads, m.call(dill.dumps, post))
    if how == 'pickle':
        if any(isinstance(p, rp.UserDefinedPrior) for p in post.priors):
            return m.call(copy.deepcopy, post)
        return m.call(pickle.loads, m.call(pickle.dumps, post))
    if how == 'chain':
        return make_copy(m, m.call(copy.deepcopy, make_copy(m, post, 'file', tag)), 'file', tag)
    if how == 'deepcopy-likelihood':
        # a posterior of a copied likelihood with copied priors
        like = m.call(copy.deepcopy, post.likelihood)
        p = radvel.posterior.Posterior(like)
        p.priors = copy.deepcopy(post.priors)
        for a in ('uparams', 'medparams', 'derived'):
            if hasattr(post, a):
                setattr(p, a, copy.deepcopy(getattr(post, a)))
        return p


def u_copies(m, rng, i):
    s, post = build(rng)
    if not s.P:
        raise Skip("empty")
    hist = plan(rng, s, post, int(rng.integers(0, 8)))
    for op in hist:
        run_op(post, s, op, [], True)
    n = len(post.get_vary_params())
    xs = [np.array(post.get_vary_params()) * (1 + .01 * rng.normal(size=n)) for _ in range(2)]
    tt = s.time_base + np.sort(rng.uniform(-20, 100, 7))
    # states in which dictionary and vector differ, too (fast settings)
    if rng.random() < .5 and n:
        post.likelihood.set_vary_params(list(xs[0]), fast=True)
    how = [gen.pick(rng, METHODS) for _ in range(2)]
    if 'deepcopy-likelihood' in how:
        post.vector.vector_to_dict()
    m.describe(basis=s.basis, npl=s.npl, insts=s.insts, gp=s.gp, how=how, history=[o[0] for o in hist], names=list(s.P),
               priors=[type(p).__name__ for p in post.priors], prec=s.linear)
    for h in how:
        m.state("copy method", h)
    state = (gen.snapshot(post.params), np.array(post.vector.vector))
    B = make_copy(m, post, how[0], 'b')
    m.same(gen.snapshot(post.params), state[0], "copying-changes-nothing")
    m.check(np.array_equal(state[1], post.vector.vector), "copying-changes-nothing")
    C = make_copy(m, post, how[1], 'c')
    m.same(gen.snapshot(B.params), state[0], "copy-has-the-parameters", how=how[0])
    m.same(np.array(B.vector.vector), state[1], "copy-has-the-vector", how=how[0])
    a = observe(post, s, xs, tt)
    b = observe(B, s, xs, tt)
    equal(m, a, b, "copy-behaves-like-original", how=how[0])
    equal(m, a, observe(C, s, xs, tt), "copy-behaves-like-original", how=how[1])
    # operations on one never show in the other
    ops = plan(rng, s, post, int(rng.integers(2, 10)))
    m.describe(ops=[o[0] for o in ops])
    a0 = observe(post, s, xs, tt)
    logs = []
    for which, P, others in (("copy", B, [post, C]), ("original", post, [C])):
        out = []
        before = [observe(q, s, xs, tt) for q in others]
        for op in ops:
            run_op(P, s, op, out, True)
            m.state("operation", op[0])
        for q, o in zip(others, before):
            equal(m, o, observe(q, s, xs, tt), "copies-are-independent", changed=which, how=how)
        logs.append((out, observe(P, s, xs, tt)))
    out = []
    for op in ops:
        run_op(C, s, op, out, True)
    logs.append((out, observe(C, s, xs, tt)))
    for out, o in logs[1:]:
        equal(m, dict(enumerate(logs[0][0])), dict(enumerate(out)), "copy-continues-like-original", ops=[o_[0] for o_ in ops])
        equal(m, logs[0][1], o, "copy-continues-like-original", what_="final")
    m.sample(logprob=a['logprob'], free=a['names'], ops=len(ops))




CHILD = r'''
import sys, json, warnings
warnings.simplefilter("ignore")
sys.path.insert(0, %(verif)r)
from rvmon import run
radvel = run.import_radvel(%(so)r)
import numpy as np
np.seterr(all="ignore")
req = json.load(open(%(req)r))
out = []
for r in req:
    post = radvel.posterior.load(r["file"])
    o = {"names": list(post.name_vary_params()), "free": list(map(float, post.get_vary_params())),
         "values": {k: float(p.value) for k, p in post.params.items()}, "keys": list(post.params.keys()),
         "varies": {k: bool(p.vary) for k, p in post.params.items()},
         "logprob": float(post.logprob()), "residuals": list(map(float, post.residuals())),
         "model": list(map(float, post.likelihood.model(np.array(r["tt"])))), "nprior": len(post.priors)}
    post.writeto(r["file"] + ".2")
    free = list(map(float, post.get_vary_params()))
    o["array"] = [float(post.logprob_array(np.array(x))) for x in r["xs"]]
    post.set_vary_params(free)
    o["again"] = float(post.logprob())
    out.append(o)
json.dump(out, open(%(req)r + ".out", "w"))
'''


def u_process(m, rng, i):
    """Written here, loaded in a fresh interpreter, written there, loaded here."""
    reqs, posts = [], []
    for j in range(6):
        s, post = build(rng)
        if not s.P:
            continue
        post.vector.vector_to_dict()
        n = len(post.get_vary_params())
        xs = [list(np.array(post.get_vary_params()) * (1 + .01 * rng.normal(size=n))) for _ in range(2)]
        tt = list(s.time_base + np.sort(rng.uniform(-20, 100, 7)))
        fn = os.path.join(m.scratch, "p%d_%d.pkl" % (i, j))
        m.call(post.writeto, fn)
        reqs.append({"file": fn, "xs": xs, "tt": tt})
        posts.append((s, post))
    req = os.path.join(m.scratch, "req%d.json" % i)
    json.dump(reqs, open(req, "w"))
    m.describe(n=len(reqs), kinds=[(s.basis, s.gp, s.npl) for s, p in posts])
    r = subprocess.run([sys.executable, "-c", CHILD % {"verif": VERIF_ROOT, "so": m.so, "req": req}], capture_output=True, text=True, timeout=300)
    if not m.check(r.returncode == 0, "loads-in-another-process", stderr=r.stderr[-1500:]):
        return
    outs = json.load(open(req + ".out"))
    np.seterr(all='ignore')
    for (s, post), q, o in zip(posts, reqs, outs):
        m.same(o["names"], list(post.name_vary_params()), "other-process-agrees", what="names")
        m.same(o["keys"], list(post.params.keys()), "other-process-agrees", what="keys")
        m.same(o["values"], gen.values(post.params), "other-process-agrees", what="values")
        m.same(o["varies"], gen.varies(post.params), "other-process-agrees", what="varies")
        m.same(o["nprior"], len(post.priors), "other-process-agrees", what="priors")
        m.close(o["free"], post.get_vary_params(), "other-process-agrees", rtol=0, what="free")
        m.close(o["logprob"], post.logprob(), "other-process-agrees", rtol=1e-10, atol=1e-9, equal_nan=True, what="logprob")
        m.close(o["again"], post.logprob(), "other-process-agrees", rtol=1e-10, atol=1e-9, equal_nan=True, what="logprob again")
        m.close(o["residuals"], post.residuals(), "other-process-agrees", rtol=1e-10, atol=1e-8, what="residuals")
        m.close(o["model"], post.likelihood.model(np.array(q["tt"])), "other-process-agrees", rtol=1e-10, atol=1e-8, what="model")
        back = m.call(radvel.posterior.load, q["file"] + ".2")
        m.same(gen.snapshot(back.params), gen.snapshot(post.params), "round-trip-through-another-process")
        for x, v in zip(q["xs"], o["array"]):
            w = post.logprob_array(np.array(x))
            m.close(v, w, "other-process-agrees", rtol=1e-10, atol=1e-9, equal_nan=True, what="array")
            m.close(back.logprob_array(np.array(x)), w, "round-trip-through-another-process", rtol=1e-10, atol=1e-9, equal_nan=True)


def u_parts(m, rng, i):
    """Parameters, models and priors on their own."""
    s, post = build(rng)
    P = s.P
    if rng.random() < .5 and s.npl:
        P = m.call(P.basis.to_any_basis, P, gen.pick(rng, ref.BASES))
    m.describe(basis=P.basis.name, names=list(P))
    for how in ('deepcopy', 'pickle', 'dill'):
        f = copy.deepcopy if how == 'deepcopy' else (lambda o: pickle.loads(pickle.dumps(o))) if how == 'pickle' else (lambda o: dill.loads(dill.dumps(o)))
        Q = m.call(f, P)
        m.same(gen.snapshot(Q), gen.snapshot(P), "parameters-survive-copying", how=how)
        m.same(sorted(Q.tex_labels().items()), sorted(P.tex_labels().items()), "parameters-survive-copying", how=how, what="labels")
        m.check(all(Q[k] is not P[k] for k in P) and Q.basis is not P.basis, "copied-parameters-are-new", how=how)
        before = gen.snapshot(P)
        for k in Q:
            Q[k].value, Q[k].vary = -1., not Q[k].vary
        Q['new'] = radvel.Parameter(value=1.)
        m.same(gen.snapshot(P), before, "copied-parameters-are-new", how=how)
        mod = m.call(f, s.mod)
        tt = s.time_base + np.linspace(0, 50, 6)
        m.close(mod(tt), s.mod(tt), "model-survives-copying", rtol=1e-13, atol=1e-12)
        for k in mod.params:
            mod.params[k].value = mod.params[k].value * 1.01 + .001
        ref_v = s.mod(tt)
        m.close(mod(tt), ref_v, "model-survives-copying", rtol=1e-13, atol=1e-12, why="dictionary edits take effect on synchronisation")
        mod.vector.dict_to_vector()
        want, tol = ref.model_rv(gen.values(mod.params), s.basis, s.npl, tt, s.time_base)
        m.close(mod(tt), want, "copied-model-follows-its-own-parameters", rtol=1e-8, atol=1e-7 + float(np.max(tol)))
        m.close(s.mod(tt), ref_v, "model-survives-copying", rtol=0, atol=0)
    for p in post.priors:
        q = m.call(copy.deepcopy, p) if isinstance(p, rp.UserDefinedPrior) else m.call(lambda o: pickle.loads(pickle.dumps(o)), p)
        np.seterr(all='ignore')
        m.close(q(s.P, post.vector), p(s.P, post.vector), "prior-survives-copying", rtol=1e-12, equal_nan=True, prior=type(p).__name__)
        m.same(q.extra_constraint, p.extra_constraint, "prior-survives-copying", prior=type(p).__name__)
        if hasattr(p, 'transform') and not p.extra_constraint:
            try:
                w = p.transform(.3)
            except Exception:
                continue
            m.close(q.transform(.3), w, "prior-survives-copying", rtol=1e-12, equal_nan=True, prior=type(p).__name__)


SECTIONS = ['fit', 'mcmc', 'ns', 'derive', 'ic_compare', 'table', 'plot', 'report']


def u_status(m, rng, i):
    """Random histories of steps writing a status file."""
    d = os.path.join(m.scratch, "st%d" % i)
    os.makedirs(d, exist_ok=True)
    fn = os.path.join(d, "x_radvel.stat")
    want = {}

    def value():
        k = rng.integers(9)
        if k == 0: return bool(rng.integers(2))
        if k == 1: return int(rng.integers(-5, 10 ** 7))
        if k == 2: return float(gen.pick(rng, [rng.normal() * 10 ** rng.uniform(-12, 12), np.inf, -np.inf]))
        if k == 3: return gen.pick(rng, ["out dir/a b.csv", "../x/y=z.csv.bz2", "a:b.pkl", "100%/x.csv", "%(here)s.csv", "C;d#e.pdf", "é/ü.tex", "$HOME/x",
                                         "#hash.csv", ";semi.csv", "[sec].csv", "a\\b.csv", '"q".csv', "true", "1e5"])
        if k == 4: return [{'a': (np.float64(rng.normal()).item(), 'x'), 'Free Params': (['k1', 'gamma_j'], 'free')} for _ in range(int(rng.integers(0, 3)))]
        if k == 5: return np.float64(rng.normal())
        if k == 6: return np.int64(rng.integers(1000))
        if k == 7: return "x" * int(rng.integers(1, 3000))
        return "f%d.csv" % rng.integers(1000)
    keys = ['run', 'postfile', 'chainfile', 'minTz', 'maxGR', 'nsteps', 'ic', 'rv_plot', 'params_tex', 'summaryfile', 'outputdir', 'a b', 'x.y']
    steps = int(rng.integers(1, 15))
    for _ in range(steps):
        sec = gen.pick(rng, SECTIONS)
        new = {gen.pick(rng, keys): value() for _ in range(int(rng.integers(0, 5)))}
        arg = dict(new)
        m.call(radvel.driver.save_status, fn, sec, arg)
        m.check(sorted(arg) == sorted(new), "argument-unchanged")
        want.setdefault(sec, {}).update(new)
        for read in range(2):
            st = m.call(radvel.driver.load_status, fn)
            m.same(sorted(st.sections()), sorted(want), "every-section-kept")
            for q, kv in want.items():
                m.same(sorted(st.options(q)), sorted({k.lower() for k in kv}), "every-value-kept", section=q)
                for k, v in kv.items():
                    got = st.get(q, k) if st.has_option(q, k) else None
                    m.same(got, str(v), "value-reads-back-as-written", section=q, option=k)
                    if isinstance(v, bool) and got is not None:
                        m.same(st.getboolean(q, k), v, "typed-value-reads-back", option=k)
                    elif isinstance(v, (int, np.integer)) and not isinstance(v, bool) and got is not None:
                        m.same(st.getint(q, k), int(v), "typed-value-reads-back", option=k)
                    elif isinstance(v, (float, np.floating)) and got is not None:
                        m.same(st.getfloat(q, k), float(v), "typed-value-reads-back", option=k)
    m.describe(steps=steps, sections=sorted(want), nvals=sum(map(len, want.values())))
    m.same(sorted(os.listdir(d)), ["x_radvel.stat"], "nothing-else-written")
    st = m.call(radvel.driver.load_status, os.path.join(d, "none.stat"))
    m.same(st.sections(), [], "missing-file-is-an-empty-status")
    m.sample(sections=sorted(want), size=os.path.getsize(fn))


UNITS = [("copies", u_copies, 154, 2500), ("process", u_process, 6, 40), ("parts", u_parts, 84, 1000), ("status", u_status, 84, 1000)]
ORDER = ["process", "copies"]
REQUIRED = ["copy-behaves-like-original", "copies-are-independent", "copy-continues-like-original", "other-process-agrees", "every-value-kept",
            "value-reads-back-as-written", "parameters-survive-copying", "copied-model-follows-its-own-parameters"]
