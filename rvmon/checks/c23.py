"""C23: saved MCMC runs, read while they run, killed and failed at arbitrary points, and resumed; files are compared with the recorded steps."""
import collections, copy, errno, os, signal, sys, types
import numpy as np
import h5py
import radvel, radvel.cli, radvel.driver
from .. import gen, setups
from ..chains import Recorder, silent, simulate
from ..core import Skip
from . import c14, c15

M = sys.modules['radvel.mcmc']
ANCHORS = ["mcmc.py"]
RULE = ("Runs with saving on fast and real posteriors; the file is read at random steps of the run, after SIGKILL, KeyboardInterrupt or an error at a random step, "
        "after a failure (disk full) or kill at a random write of a save, and after a normal end; every such file is continued from (same or new file, serial or "
        "parallel), and with other ensembles, walkers and parameters; files left by earlier runs with another layout are reused as targets.")
ASSUMPTIONS = ["SIGKILL models a crash of the process, not of the operating system", "checks happen every `checkinterval` steps and at the end"]


def read(path):
    """The contents of a saved run, or None if there is nothing readable."""
    try:
        with h5py.File(path, 'r') as f:
            return {k: np.array(f[k]) for k in f.keys()}
    except (OSError, KeyError, RuntimeError):
        return None


def make(rng):
    if rng.random() < .75:
        post = c15.fast(rng)
    else:
        s, post = c14.posterior(rng)
        if s.gp:
            raise Skip("gp")
    return post


def options(rng, nd):
    o = c15.options(rng, nd)
    o['checkinterval'] = int(gen.pick(rng, [3, 5, 8, 10]))
    o['nrun'] = int(o['checkinterval'] * rng.integers(2, 7) + gen.pick(rng, [0, 0, -1, 1]))
    o['minsteps'], o['minpercent'] = int(gen.pick(rng, [0, 0, o['checkinterval']])), float(gen.pick(rng, [0, 50, 101]))
    o['serial'] = True
    return o


def matches(d, st, nens, lnps=None):
    """Is the file content d this state of the run?"""
    want = set(['%d_%s' % (e, k) for e in range(nens) for k in ('chain', 'log_prob', 'accepted')] + ['crit', 'autosample', 'automin', 'automean', 'automax', 'burned'])
    if set(d) != want:
        return "keys: missing %s, unexpected %s" % (sorted(want - set(d)), sorted(set(d) - want))
    for e in range(nens):
        if not np.array_equal(d['%d_chain' % e], st['hist'][e]):
            return "chain %d: shape %s, expected %s" % (e, d['%d_chain' % e].shape, st['hist'][e].shape)
        if d['%d_log_prob' % e].shape != st['hist'][e].shape[:2] or d['%d_accepted' % e].shape != st['hist'][e].shape[1:2]:
            return "log_prob/accepted %d: shapes" % e
        acc = (np.diff(st['hist'][e], axis=0) != 0).any(axis=2).sum(axis=0)
        if np.any(d['%d_accepted' % e] < acc) or np.any(d['%d_accepted' % e] > len(st['hist'][e])):
            return "accepted %d" % e
    crit = [st[k] for k in ('minafactor', 'maxarchange', 'mintz', 'maxgr')]
    if not np.allclose(d['crit'], crit, rtol=1e-3, atol=1e-6):
        return "criteria %s, expected %s" % (d['crit'], crit)
    if list(d['burned'].astype(int)) != [st['nburn'] if st['burn'] else 0]:
        return "burned %s, expected %s" % (d['burned'], st['nburn'] if st['burn'] else 0)
    a = np.array(st['autos']).reshape(-1, 4)
    for j, k in enumerate(('autosample', 'automean', 'automin', 'automax')):
        if d[k].shape != (len(a),) or not np.allclose(d[k], a[:, j], rtol=1e-5):
            return "history %s %s, expected %s" % (k, d[k], a[:, j])
    return None


def lnp_ok(m, post, d, nens, rng, where):
    q = copy.deepcopy(post)
    for e in range(nens):
        c, l = d['%d_chain' % e], d['%d_log_prob' % e]
        for _ in range(6):
            a, b = int(rng.integers(c.shape[0])), int(rng.integers(c.shape[1]))
            w = float(q.logprob_array(c[a, b]))
            m.close(l[a, b], w, "stored-log-probability-is-the-posterior's", rtol=1e-9, atol=1e-9, where=where)


def steps_of(H):
    return [np.array([c for seg in h['segments'] for c, l in seg]) if any(h['segments']) else np.zeros((0, 0, 0)) for h in H]


def sim_of(H, o, nw, **pre):
    """Simulated states at the checks reached by every ensemble."""
    steps = steps_of(H)
    if any(x.ndim != 3 or not len(x) for x in steps):
        return []
    states, end = simulate(steps, o, nw, **pre)
    return states


class Fault(Exception):
    pass


def faulty(kind, at):
    """Context: the at-th dataset write (or file replacement) fails or kills the process."""
    class C:
        def __enter__(self):
            self.n = 0
            self.orig = h5py.Group.create_dataset
            self.rep = os.replace
            def act():
                if kind == 'kill':
                    os.kill(os.getpid(), signal.SIGKILL)
                elif kind == 'interrupt':
                    raise KeyboardInterrupt
                raise OSError(errno.ENOSPC, "No space left on device")
            def create(g, *a, **k):
                self.n += 1
                if self.n == at:
                    act()
                return self.orig(g, *a, **k)
            def replace(*a, **k):
                self.n += 1
                if self.n == at:
                    act()
                return self.rep(*a, **k)
            h5py.Group.create_dataset = create
            os.replace = replace
            return self
        def __exit__(self, *a):
            h5py.Group.create_dataset = self.orig
            os.replace = self.rep
    return C()


def run(m, post, o, events, on_step=None, fault=None, fork=False, key=None):
    """One run; returns (result or None, history, ended how)."""
    R = Recorder(events, on_step)
    def go():
        with R, silent():
            if fault:
                with faulty(*fault):
                    return M.mcmc(post, **o)
            return M.mcmc(post, **o)
    if fork:
        pid = os.fork()
        if pid == 0:
            try:
                go()
                os._exit(0)
            except BaseException:
                os._exit(1)
        _, stat = os.waitpid(pid, 0)
        how = 'killed' if os.WIFSIGNALED(stat) else 'ended' if os.WEXITSTATUS(stat) == 0 else 'error'
        return None, R.history(), how
    try:
        r = go()
        how = 'ended' if r is not None else 'interrupted'
    except (Fault, OSError) as e:
        r, how = None, 'error'
    except KeyboardInterrupt:
        r, how = None, 'interrupted'
    return r, R.history(), how


def judge_file(m, d, states, nens, where, o, last_only=True):
    """The file is the state at the last completed check (or at the one before, if the run ended within a save)."""
    if d is None:
        return
    cand = states[-1:] if last_only else states[-2:]
    why = [matches(d, st, nens) for st in cand]
    m.check(any(w is None for w in why), "file-holds-the-run-at-its-last-check", why=why, where=where, opts={k: o[k] for k in ('checkinterval', 'nrun', 'ensembles')},
            lens=[int(d[k].shape[0]) for k in sorted(d) if k.endswith('_chain')], states=[s['steps'] for s in states])


def resume(m, rng, post, o, path, d, i, names):
    """Continue from the saved run d at path."""
    pre = [d['%d_chain' % e] for e in range(o['ensembles'])]
    nw = pre[0].shape[1]
    o2 = options(rng, len(names))
    o2.update(ensembles=o['ensembles'], nwalkers=o['nwalkers'], serial=bool(rng.random() < .7), proceed=True, proceedname=path)
    same = rng.random() < .6
    target = path if same else path + '.next'
    o2.update(save=bool(rng.random() < .85), savename=target)
    content = open(path, 'rb').read()
    m.state("resumed", (same, o2['save'], o2['serial'], int(d['burned'][0]) > 0))
    pp = copy.deepcopy(post)
    ev = path + '.ev2'
    R = Recorder(ev)
    with R, silent():
        df = m.call(M.mcmc, pp, **o2)
    H = R.history()
    if not (o2['save'] and same):
        m.check(open(path, 'rb').read() == content, "source-file-untouched")
    for e, h in enumerate(H):
        if h['begins']:
            m.check(np.array_equal(h['begins'][0][2], pre[e][-1]), "continues-from-the-saved-positions", ensemble=e)
    prehist = list(zip(*[d[k] for k in ('autosample', 'automean', 'automin', 'automax')]))
    sim, end = simulate(steps_of(H), o2, nw, pre=pre, preburned=int(d['burned'][0]), prehist=prehist)
    if not m.check(end is not None, "continued-run-takes-its-steps", opts=o2, steps=[len(x) for x in steps_of(H)]):
        return
    m.same([len(x) for x in steps_of(H)], [end['steps']] * o['ensembles'], "continued-run-takes-its-steps", opts=o2)
    keep = collections.Counter(map(bytes, np.concatenate([h.reshape(-1, len(names)) for h in end['hist']])))
    got = collections.Counter(map(bytes, np.ascontiguousarray(df[names].values.astype(float))))
    m.check(keep == got, "result-is-saved-and-new-samples", missing=sum((keep - got).values()), extra=sum((got - keep).values()), opts=o2)
    if not any(s.get('discard') for s in sim):
        pl = collections.Counter(map(bytes, np.concatenate([np.concatenate([d['%d_chain' % e], d['%d_log_prob' % e][:, :, None]], axis=2).reshape(-1, len(names) + 1)
                                                            for e in range(o['ensembles'])])))
        gl = collections.Counter(map(bytes, np.ascontiguousarray(df[names + ['lnprobability']].values.astype(float))))
        m.check(not (pl - gl), "saved-samples-kept-unchanged", lost=sum((pl - gl).values()), saved=sum(pl.values()))
    m.same(int(M.statevars.nburn), end['nburn'], "burn-in-state-restored")
    if o2['save']:
        d2 = read(target)
        if m.check(d2 is not None, "file-readable-at-the-end"):
            judge_file(m, d2, sim, o['ensembles'], "resumed", o2)
            if not any(s.get('discard') for s in sim[:-1]):
                for e in range(o['ensembles']):
                    m.check(np.array_equal(d2['%d_chain' % e][:len(pre[e])], pre[e]), "result-begins-with-the-saved-samples", ensemble=e)
                    m.check(np.array_equal(d2['%d_log_prob' % e][:len(pre[e])], d['%d_log_prob' % e]), "result-begins-with-the-saved-samples", ensemble=e)
            lnp_ok(m, post, d2, o['ensembles'], rng, "resumed")
    m.event("resumed runs")


def refuse(m, rng, post, o, path, d, names):
    content = open(path, 'rb').read()
    for what in ('ensembles', 'walkers', 'parameters'):
        o2 = dict(o, proceed=True, proceedname=path, save=bool(rng.random() < .5), savename=path)
        pp = copy.deepcopy(post)
        if what == 'ensembles':
            o2['ensembles'] = int(gen.pick(rng, [q for q in (1, 2, 3, 4, 5) if q != o['ensembles']]))
        elif what == 'walkers':
            o2['nwalkers'] = d['0_chain'].shape[1] + int(gen.pick(rng, [1, 2, 7]))
        else:
            pp.params[names[0]].vary = False
            if len(names) == 1:
                other = [k for k in pp.params if k not in names and not pp.params[k].linear][:2]
                for k in other:
                    pp.params[k].vary = True
                if len(other) < 2:
                    continue
                pp.params[names[0]].vary = bool(rng.integers(2))
            pp.vector.dict_to_vector()
            pp.list_vary_params()
            pp.likelihood.list_vary_params()
            if len(pp.name_vary_params()) == len(names):
                continue
            o2['nwalkers'] = max(d['0_chain'].shape[1], 2 * len(pp.name_vary_params()))
        with silent():
            m.raises(M.mcmc, pp, _mon="other-layout-refused", _detail={'what': what}, **o2)
        m.check(open(path, 'rb').read() == content, "other-layout-refused", what="file changed")


def u_crash(m, rng, i):
    post = make(rng)
    names = list(post.name_vary_params())
    o = options(rng, len(names))
    nw = max(o['nwalkers'], 2 * len(names))
    path = os.path.join(m.scratch, "c%d.h5" % i)
    how = gen.pick(rng, ['end', 'kill', 'kill', 'error', 'interrupt', 'write-kill', 'write-kill', 'write-error', 'write-interrupt'])
    total = o['ensembles'] * o['nrun']
    at = int(rng.integers(1, total + 1))
    nwrites = 3 * o['ensembles'] + 7
    atw = int(rng.integers(1, nwrites * max(2, -(-o['nrun'] // o['checkinterval'])) + 1))
    stale = rng.random() < .3
    m.describe(opts={k: v for k, v in o.items()}, ndim=len(names), how=how, at=at, atw=atw, stale=stale)
    m.state("ended by", how)
    if stale:     # a file that an earlier run with another layout left
        p0 = c15.fast(rng, nd=int(rng.integers(1, 4)))
        with silent():
            m.call(M.mcmc, p0, nwalkers=12, nrun=4, ensembles=int(gen.pick(rng, [1, 5])), checkinterval=2, minpercent=101, serial=True, save=True, savename=path, headless=True)
        before = read(path)
    run_o = dict(o, save=True, savename=path)
    reads = []
    prob = 0 if how == 'end' and rng.random() < .3 else .1
    pr = np.random.default_rng(int(rng.integers(2 ** 31)))

    def on_step(n):
        if how == 'kill' and n == at:
            os.kill(os.getpid(), signal.SIGKILL)
        if how == 'error' and n == at:
            raise Fault()
        if how == 'interrupt' and n == at:
            raise KeyboardInterrupt
        if not how.endswith('kill') and pr.random() < prob and len(reads) < 25:
            d = read(path)
            reads.append((n, d))
    fork = how.endswith('kill')
    fault = (how.split('-')[1], atw) if how.startswith('write') else None
    if fork:
        r, H, ended = run(m, copy.deepcopy(post), run_o, path + '.ev', on_step, fault, fork=True)
    else:
        r, H, ended = m.call(run, m, post, run_o, path + '.ev', on_step, fault, _mon="interruptions-end-the-run-cleanly")
    m.state("how it ended", (how, ended))
    # complete rounds that every ensemble reached
    ns = [len(x) for x in steps_of(H)]
    full = min(ns) if ns else 0
    done = [k for k in range(o['checkinterval'], full + 1, o['checkinterval'])] + ([o['nrun']] if full == o['nrun'] and full % o['checkinterval'] else [])
    states = sim_of(H, o, nw) if done else []
    m.event("steps", sum(ns))
    d = read(path)
    if states:
        # a run that stopped at a step may have been killed between its last step and the save
        at_boundary = ended != 'ended'
        if d is None:
            m.check(at_boundary and len(states) == 1, "file-there-after-the-first-check", states=len(states), how=how, ended=ended)
        elif stale and before is not None and at_boundary and len(states) == 1 and set(before) == set(d) and all(np.array_equal(before[k], d[k]) for k in d):
            m.event("earlier file kept until the first save")
        else:
            judge_file(m, d, states, o['ensembles'], how, o, last_only=not at_boundary)
    elif d is not None:
        m.check(stale and set(before) == set(d) and all(np.array_equal(before[k], d[k], equal_nan=True) for k in d), "nothing-saved-before-the-first-check", how=how)
        d = None
    if d is not None and stale and all(k in d for k in before) and all(np.array_equal(before[k], d[k], equal_nan=True) for k in d):
        d = None
    # what was read while running: the state at the last check completed before that step
    nens = o['ensembles']
    for n, dd in reads:
        if dd is None or (stale and set(dd) == set(before) and all(np.array_equal(before[k], dd[k], equal_nan=True) for k in dd)):
            continue
        per = min(ns)
        # serial: ensembles advance one after the other, so step n of the run belongs to round n // (ci * nens)
        rnd = (n - 1) // (o['checkinterval'] * nens)
        if rnd >= 1 and rnd <= len(states):
            why = matches(dd, states[rnd - 1], nens)
            m.check(why is None, "file-holds-the-run-whenever-read", why=why, step=n, round=rnd, how=how)
        elif rnd == 0:
            m.check(False, "nothing-saved-before-the-first-check", step=n, keys=sorted(dd))
        m.event("reads during the run")
    if d is not None and states:
        lnp_ok(m, post if not fork else post, d, nens, rng, how)
        refuse(m, rng, post, o, path, d, names)
        resume(m, rng, post, o, path, d, i, names)
    m.sample(how=how, ended=ended, steps=ns, file=None if d is None else sorted(d)[:3])


def u_args(m, rng, i):
    post = c15.fast(rng)
    path = os.path.join(m.scratch, "none%d.h5" % i)
    kw = dict(nwalkers=12, nrun=4, ensembles=2, checkinterval=2, minpercent=101, serial=True, headless=True)
    with silent():
        m.raises(M.mcmc, copy.deepcopy(post), _mon="missing-file-names-refused", save=True, savename=None, **kw)
        m.raises(M.mcmc, copy.deepcopy(post), _mon="missing-file-names-refused", proceed=True, proceedname=None, **kw)
        m.raises(M.mcmc, copy.deepcopy(post), _mon="missing-file-names-refused", proceed=True, proceedname=path, **kw)
    m.check(not os.path.exists(path), "missing-file-names-refused")


def u_driver(m, rng, i):
    """The command line: mcmc --save, then --save --proceed; chain files hold what the saved run holds."""
    s = gen.system(radvel, rng, npl=1, emax=.3, nobs=8, vary=(0,), linear=False, insts=['j'], decorr=[], trend='none', basis='per tc secosw sesinw k')
    for k in ('k1', 'gamma_j', 'jit_j'):
        s.P[k].vary = True
    s.mod.vector.dict_to_vector()
    d = os.path.join(m.scratch, "drv%d" % i)
    setup, df = setups.write(d, s, name="sys%d" % i, priors=["radvel.prior.HardBounds('jit_j', 0., 20.)"], rng=rng)
    nens, ci = int(gen.pick(rng, [1, 2])), 50
    def cli(*argv):
        old = sys.argv
        sys.argv = ['radvel'] + list(argv)
        try:
            with silent():
                m.call(radvel.cli.main)
        finally:
            sys.argv = old
    base = ['-s', setup, '-d', d]
    m.describe(nens=nens)
    cli('fit', *base)
    opts = base + ['--nsteps', '50', '--nwalkers', '8', '--nensembles', str(nens), '--thin', '1', '--headless', '--save', '--burnGR', '1.0', '--burnAfactor', '1e9']
    prev = None
    for rep in range(2):
        cli('mcmc', *(opts + (['--proceed'] if rep else [])))
        h = read(os.path.join(d, "sys%d_rawchain.h5" % i))
        if not m.check(h is not None, "file-readable-at-the-end"):
            return
        import pandas as pd
        ch = pd.read_csv(os.path.join(d, "sys%d_chains.csv.bz2" % i))
        rows = np.concatenate([np.concatenate([h['%d_chain' % e], h['%d_log_prob' % e][:, :, None]], axis=2).reshape(-1, 4) for e in range(nens)])
        m.same([h['%d_chain' % e].shape for e in range(nens)], [(50 * (rep + 1), 8, 3)] * nens, "command-line-run-saved", rep=rep)
        names = [c for c in ch.columns if c in ('k1', 'gamma_j', 'jit_j')] + ['lnprobability']
        a, b = rows, ch[names].values
        m.same(len(b), len(a), "chain-file-holds-the-saved-run", rep=rep)
        if len(a) == len(b):
            m.close(b[np.lexsort(np.round(b.T, 7))], a[np.lexsort(np.round(a.T, 7))], "chain-file-holds-the-saved-run", rtol=1e-9, rep=rep)
        if prev is not None:
            for e in range(nens):
                m.check(np.array_equal(h['%d_chain' % e][:50], prev['%d_chain' % e]), "result-begins-with-the-saved-samples", ensemble=e, where="driver")
        prev = h


UNITS = [("driver", u_driver, 4, 40), ("crash", u_crash, 260, 4000), ("args", u_args, 2, 10)]
REQUIRED = ["file-holds-the-run-at-its-last-check", "file-holds-the-run-whenever-read", "continues-from-the-saved-positions", "result-is-saved-and-new-samples",
            "result-begins-with-the-saved-samples", "saved-samples-kept-unchanged", "other-layout-refused", "stored-log-probability-is-the-posterior's",
            "chain-file-holds-the-saved-run", "burn-in-state-restored"]
