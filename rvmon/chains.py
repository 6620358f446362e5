"""Recording of MCMC runs: every step each ensemble takes, in whatever process, goes to an append-only event log."""
import contextlib, io, os, pickle, struct, sys
import numpy as np
import emcee
import emcee.backends
from .core import Skip


class Recorder:
    """While active, emcee samplers log: new, begin (a call to sample), step (a stored step), reset."""
    def __init__(self, path, on_step=None):
        self.path = path
        self.on_step = on_step
        self.nsteps = 0
        open(path, 'wb').close()
        self.n = 0

    def put(self, *rec):
        b = pickle.dumps(rec, protocol=4)
        fd = os.open(self.path, os.O_WRONLY | os.O_APPEND)
        try:
            os.write(fd, struct.pack('<I', len(b)) + b)
        finally:
            os.close(fd)

    def __enter__(self):
        rec = self
        S, B = emcee.EnsembleSampler, emcee.backends.Backend
        self.orig = (S.__init__, S.sample, S.reset, B.save_step)

        def init(sampler, *a, **k):
            sampler._rvmon = rec.n
            rec.n += 1
            rec.orig[0](sampler, *a, **k)
            sampler.backend._rvmon = sampler._rvmon
            rec.put('new', sampler._rvmon, os.getpid())

        def sample(sampler, initial_state, *a, **k):
            st = emcee.state.State(initial_state, copy=True)
            rec.put('begin', getattr(sampler, '_rvmon', None), np.array(st.coords), os.getpid())
            return rec.orig[1](sampler, initial_state, *a, **k)

        def reset(sampler):
            rec.orig[2](sampler)
            rec.put('reset', getattr(sampler, '_rvmon', None))

        def save_step(backend, state, accepted):
            rec.put('step', getattr(backend, '_rvmon', None), np.array(state.coords), np.array(state.log_prob), os.getpid())
            r = rec.orig[3](backend, state, accepted)
            rec.nsteps += 1
            if rec.on_step is not None:
                rec.on_step(rec.nsteps)
            return r
        S.__init__, S.sample, S.reset, B.save_step = init, sample, reset, save_step
        return self

    def __exit__(self, *a):
        S, B = emcee.EnsembleSampler, emcee.backends.Backend
        S.__init__, S.sample, S.reset, B.save_step = self.orig

    def read(self):
        out = []
        with open(self.path, 'rb') as f:
            while True:
                h = f.read(4)
                if len(h) < 4:
                    return out
                b = f.read(struct.unpack('<I', h)[0])
                try:
                    out.append(pickle.loads(b))
                except (EOFError, pickle.UnpicklingError):
                    return out

    def history(self):
        """Per ensemble: {'segments': [[(coords, lnp), ...], ...], 'begins': [(segment, index, coords)], 'pids'}"""
        H = {}
        for e in self.read():
            if e[0] == 'new':
                H[e[1]] = {'segments': [[]], 'begins': [], 'pids': set()}
            elif e[1] not in H:
                continue
            elif e[0] == 'reset':
                if H[e[1]]['segments'][-1] or H[e[1]]['begins']:
                    H[e[1]]['segments'].append([])
            elif e[0] == 'begin':
                h = H[e[1]]
                h['begins'].append((len(h['segments']) - 1, len(h['segments'][-1]), e[2]))
            elif e[0] == 'step':
                H[e[1]]['segments'][-1].append((e[2], e[3]))
                H[e[1]]['pids'].add(e[4])
        return [H[k] for k in sorted(H)]


@contextlib.contextmanager
def silent():
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        yield


# ---------------------------------------------------------------- definitions of the statistics
def integrated_time(x):
    """x: (steps, walkers, ndim).  Sokal's window (c=5) on the walkers' mean autocorrelation; NaN where a walker never moved."""
    n, nw, nd = x.shape
    out = np.empty(nd)
    for d in range(nd):
        y = x[:, :, d] - x[:, :, d].mean(axis=0)
        c0 = (y * y).sum(axis=0)
        if np.any(np.ptp(x[:, :, d], axis=0) == 0):
            out[d] = np.nan
            continue
        first, acc, tau = None, 0., None
        for k in range(n):
            r = ((y[:n - k] * y[k:]).sum(axis=0) / c0).mean()
            acc += r
            t = 2 * acc - 1
            if k == 0:
                first = t
            if not k < 5. * t:
                tau = t
                break
        out[d] = first if tau is None else tau
    return out


def statistics(hist):
    """hist: list (ensembles) of arrays (steps, walkers, ndim) -> gr, tz, tau, afactor"""
    nc = len(hist)
    z = [h.reshape(-1, h.shape[2]) for h in hist]
    L = len(z[0])
    W = np.mean([np.var(c, axis=0) for c in z], axis=0)
    means = np.array([c.mean(axis=0) for c in z])
    B = L * means.var(axis=0, ddof=1) if nc > 1 else np.zeros(means.shape[1])
    with np.errstate(all='ignore'):
        varp = (L - 1.) / L * W + B / L
        gr = np.sqrt(varp / W)
        tz = L * nc * np.minimum(varp / B, 1) if nc > 1 else None
    cat = np.concatenate(hist, axis=0)
    tau = integrated_time(cat)
    return gr, tz, tau, len(cat) / tau


class Near(Skip):
    pass


def less(a, b):
    """a < b, refusing to decide numerical ties"""
    if np.isnan(a) or np.isnan(b):
        return False
    if np.isinf(a) or np.isinf(b):
        return a < b
    if abs(a - b) <= 1e-7 * (abs(a) + abs(b)):
        raise Near("threshold tie")
    return a < b


def simulate(steps, o, nwalkers, pre=None, preburned=0, prehist=None):
    """What a run over these steps should do.  steps: per ensemble array (n, walkers, ndim), every step taken in the run.
    o: options.  pre: per-ensemble saved chains.  Returns the state at every check and at the end."""
    ens = len(steps)
    nrun, ci = int(o['nrun']), o['checkinterval']
    tot = nrun * nwalkers * ens
    burn, nburn = bool(preburned), int(preburned)
    hist = [np.zeros((0,) + s.shape[1:]) if pre is None else pre[e] for e, s in enumerate(steps)]
    oac, mix, autos = 0., 0, [] if prehist is None else list(prehist)
    out, stopped, pos = [], False, 0
    nchecks = -(-nrun // ci)
    for r in range(nchecks):
        new = min(ci, nrun - r * ci)
        hist = [np.concatenate([hist[e], steps[e][pos:pos + new]]) for e in range(ens)]
        pos += new
        n = len(hist[0])
        if any(len(h) != n for h in hist) or pos > min(len(s) for s in steps):
            return out, None
        ncomplete = nburn + n * nwalkers * ens
        st = {'ncomplete': ncomplete, 'nburn': nburn, 'burn': burn, 'steps': n, 'hist': hist, 'pos': pos}
        if ncomplete / float(tot) * 100 < o['minpercent'] and n <= o['minsteps']:
            st.update(mixed=False, minafactor=-1., maxarchange=np.inf, maxgr=np.inf, mintz=-1.)
        else:
            gr, tz, tau, af = statistics(hist)
            if np.any(np.isnan(tau)) or np.any(np.isnan(gr)):
                raise Skip("walker never moved")
            if np.any(np.abs(tau) < 1e-6):
                raise Skip("autocorrelation time vanishes")
            with np.errstate(all='ignore'):
                ar = np.abs(tau - oac) / oac
            st.update(minafactor=af.min(), maxarchange=ar.max(), maxgr=gr.max(), mintz=tz.min() if tz is not None else -1.)
            st['mixed'] = bool((tz is None or less(o['minTz'], tz.min())) and less(gr.max(), o['maxGR']) and less(o['minAfactor'], af.min())
                               and less(ar.max(), o['maxArchange']))
            oac = tau
            if burn:
                autos.append((n * ens, tau.mean(), tau.min(), tau.max()))
            mix = mix + 1 if st['mixed'] else 0
        st.update(autos=list(autos), mixcount=mix)
        out.append(st)
        last = mix >= 2 or r == nchecks - 1
        if not burn and not last and (less(st['maxgr'], o['burnGR']) or less(o['burnAfactor'], st['minafactor'])):
            hist = [h[:0] for h in hist]
            burn, nburn = True, ncomplete
            st['discard'] = True
        if mix >= 2:
            stopped = True
            break
    return out, {'steps': pos, 'stopped': stopped, 'hist': hist, 'nburn': nburn, 'burn': burn}
