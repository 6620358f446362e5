"""C26: what each command is asked for on its command line is what it does: options, defaults, directories, refusals."""
import contextlib, inspect, io, os, re, shutil, sys
import numpy as np
import pandas as pd
import radvel, radvel.cli, radvel.driver, radvel.nested_sampling
from radvel.plot import orbit_plots
from .. import gen, ref, setups
from ..chains import Recorder, silent
from ..core import Skip

ANCHORS = ["cli.py", "driver.py"]
RULE = ("Command lines with random subsets of the options of fit, mcmc, ns, plot, table and ic in any order and spelling (--opt value, --opt=value), with and without -d, setup files "
        "under relative, absolute and dotted names in other directories, several setup files sharing a directory, unknown commands, options and choices; the call that each command "
        "makes of the library is observed at the library's public entry points.")
ASSUMPTIONS = ["the setup file's name up to the first dot names the analysis", "the library's own defaults, and those in the help text, are the documented ones"]
CASE_CPU_LIMIT = 120


class Reached(BaseException):
    """Ends a command at the library call that was observed."""


def cli(argv):
    """Runs a command: (exception or None, standard output)."""
    old, cwd = sys.argv, os.getcwd()
    sys.argv = ['radvel'] + [str(a) for a in argv]
    out = io.StringIO()
    err = None
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
            radvel.cli.main()
    except (Exception, SystemExit, Reached) as e:
        err = e
    finally:
        sys.argv = old
        os.chdir(cwd)
        import matplotlib.pyplot as pl
        pl.close('all')
    return err, out.getvalue()


@contextlib.contextmanager
def observed(fn, owners, stop=True):
    """Calls of fn, under whatever name these modules know it, as dictionaries of all arguments, defaults applied."""
    sig = inspect.signature(fn)
    calls = []

    def spy(*a, **k):
        b = sig.bind(*a, **k)
        b.apply_defaults()
        calls.append(dict(b.arguments))
        if stop:
            raise Reached()
        return fn(*a, **k)
    back = []
    for o in owners:
        for n, v in list(vars(o).items()):
            if v is fn:
                back.append((o, n, v))
                setattr(o, n, spy)
    try:
        yield calls
    finally:
        for o, n, v in back:
            setattr(o, n, v)


MCMC = radvel.mcmc
NSRUN = radvel.nested_sampling.run


def small(rng, root, name, npl=None, starname=None, gp=None, insts=None):
    s = gen.system(radvel, rng, npl=int(rng.integers(0, 3)) if npl is None else npl, gp=gp, vary=(0,), linear=False, nobs=8, emax=.4, decorr=[], insts=insts or ['j', 'k'][:int(rng.integers(1, 3))], trend='none')
    for k in s.insts:
        s.P['gamma_' + k].vary = True
        s.P['jit_' + k].value = float(rng.uniform(1, 3))
    pri = ["radvel.prior.HardBounds('gamma_%s', -900., 900.)" % k for k in s.insts]
    path, df = setups.write(root, s, name=name, priors=pri, rng=rng, starname=starname)
    return s, path


def spelled(rng, opts):
    """Options as words, in any order."""
    out = []
    for j in rng.permutation(len(opts)):
        k, v = opts[j]
        if v is None:
            out.append(k)
        elif isinstance(v, list):
            out += [k] + [str(x) for x in v]
        elif rng.random() < .5 and k.startswith('--'):
            out.append('%s=%s' % (k, v))
        else:
            out += [k, str(v)]
    return out


def tree(root):
    out = {}
    for dp, dn, fn in os.walk(root):
        for f in fn:
            p = os.path.join(dp, f)
            with open(p, 'rb') as h:
                out[os.path.relpath(p, root)] = hash(h.read())
    return out


@contextlib.contextmanager
def inside(d):
    old = os.getcwd()
    os.makedirs(d, exist_ok=True)
    os.chdir(d)
    try:
        yield
    finally:
        os.chdir(old)
        shutil.rmtree(d, ignore_errors=True)


OPTIONS = {  # option: (library argument, values, spelled)
    '--nsteps': ('nrun', lambda r: gen.pick(r, [(20, '20'), (1000, '1e3'), (150, '150'), (3000, '3000.0')])),
    '--nwalkers': ('nwalkers', lambda r: (lambda v: (v, str(v)))(int(r.integers(2, 90)))),
    '--nensembles': ('ensembles', lambda r: (lambda v: (v, str(v)))(int(r.integers(1, 12)))),
    '--minAfactor': ('minAfactor', lambda r: (lambda v: (v, repr(v)))(float(r.uniform(1, 100)))),
    '--maxArchange': ('maxArchange', lambda r: (lambda v: (v, repr(v)))(float(r.uniform(.001, 1)))),
    '--maxGR': ('maxGR', lambda r: (lambda v: (v, repr(v)))(float(r.uniform(1, 2)))),
    '--burnGR': ('burnGR', lambda r: (lambda v: (v, repr(v)))(float(r.uniform(1, 2)))),
    '--burnAfactor': ('burnAfactor', lambda r: (lambda v: (v, repr(v)))(float(r.uniform(1, 60)))),
    '--minTz': ('minTz', lambda r: (lambda v: (v, str(v)))(int(r.integers(0, 5000)))),
    '--minsteps': ('minsteps', lambda r: (lambda v: (v, str(v)))(int(r.integers(0, 5000)))),
    '--minpercent': ('minpercent', lambda r: (lambda v: (v, repr(v)))(float(r.uniform(0, 100)))),
    '--thin': ('thin', lambda r: (lambda v: (v, str(v)))(int(r.integers(1, 50)))),
    '--serial': ('serial', lambda r: gen.pick(r, [(True, 'True'), (False, 'False'), (True, 'true'), (True, '1'), (False, 'false')])),
}
FLAGS = ['--save', '--proceed', '--headless']
# stated by the documentation of the command line, where it differs from the library
CLI_DEFAULT = {'thin': 10}


def prepared(m, rng, root, **kw):
    """A fitted analysis in the current directory."""
    s, path = small(rng, os.path.join(root, 'setups'), str(gen.pick(rng, ['sys', 'HD_12', 'k2-3'])), **kw)
    out = os.path.join(root, 'out')
    err, _ = cli(['fit', '-s', path, '-d', out])
    m.check(err is None, "permitted-command-runs", command='fit', error=repr(err))
    if err is not None:
        raise Skip("no fit")
    return s, path, out


def u_mcmc(m, rng, i):
    with inside(os.path.join(m.scratch, 'w%d' % i)):
        s, path, out = prepared(m, rng, '.')
        conf = os.path.basename(path).split('.')[0]
        lib = {k: p.default for k, p in inspect.signature(MCMC).parameters.items() if p.default is not p.empty}
        for rep in range(6):
            names = [k for k in OPTIONS if rng.random() < gen.pick(rng, [0, .3, .3, .9])] if rep else []
            flags = [k for k in FLAGS if rng.random() < .3] if rep else []
            want = dict(lib, **CLI_DEFAULT)
            opts = []
            for k in names:
                v, text = OPTIONS[k][1](rng)
                want[OPTIONS[k][0]] = v
                opts.append((k, text))
            for k in flags:
                want[k[2:]] = True
                opts.append((k, None))
            a = ['mcmc'] + spelled(rng, opts + [('-s', path), ('-d', out)])
            m.describe(command=a)
            with observed(MCMC, [radvel, radvel.driver, radvel.cli]) as calls:
                err, text = cli(a)
            if not calls:
                m.event("library call not seen")
                m.check(err is None, "permitted-command-runs", command=a, error=repr(err))
                continue
            got = calls[0]
            for k in want:
                if k in ('savename', 'proceedname'):
                    continue
                if k not in got:
                    continue
                m.check(got[k] == want[k] and isinstance(got[k], bool) == isinstance(want[k], bool), "option-takes-effect" if k in [OPTIONS[x][0] for x in names] + [x[2:] for x in flags] else "default-as-documented",
                        argument=k, got=got[k], want=want[k], command=a)
            for f, k in (('--save', 'savename'), ('--proceed', 'proceedname')):
                if f in flags:
                    v = got.get(k)
                    m.check(v is not None and os.path.dirname(os.path.abspath(v)) == os.path.abspath(out) and os.path.basename(v).startswith(conf), "saved-chains-in-the-directory", file=v, command=a)
            if '--save' in flags and '--proceed' in flags:
                m.same(got.get('savename'), got.get('proceedname'), "saved-chains-in-the-directory", what="one file")
            m.check(isinstance(got['post'], radvel.posterior.Posterior) and got['post'].logprob() == radvel.posterior.load(os.path.join(out, conf + '_post_obj.pkl')).logprob(),
                    "analysis-is-of-the-setup-file", what="the fit that was made")
            m.state("options", tuple(sorted(names)))


def u_real(m, rng, i):
    """A short run, for what it leaves behind."""
    with inside(os.path.join(m.scratch, 'r%d' % i)):
        s, path, out = prepared(m, rng, '.', npl=0)
        nw, ne, n, thin = int(gen.pick(rng, [6, 8])), int(rng.integers(1, 4)), int(rng.integers(20, 70)), int(rng.integers(1, 5))
        o = [('--nsteps', n), ('--nwalkers', nw), ('--nensembles', ne), ('--thin', thin), ('--burnGR', 0.5), ('--burnAfactor', 1e9), ('--maxGR', 0.5)]
        if rng.random() < .7:
            o.append(('--headless', None))
        if ne == 1 or rng.random() < .5:
            o.append(('--serial', 'True'))
        ev = os.path.abspath('events')
        np.random.seed(int(rng.integers(2 ** 31)))
        R = Recorder(ev)
        with R:
            err, text = cli(['mcmc'] + spelled(rng, o + [('-s', path), ('-d', out)]))
        m.check(err is None, "permitted-command-runs", command=o, error=repr(err))
        if err is not None:
            return
        H = R.history()
        m.same(len(H), ne, "ensembles-as-asked", options=o)
        for h in H:
            st = [x for seg in h['segments'] for x in seg]
            m.same(len(st), n, "steps-as-asked", options=o)
            m.same({x[0].shape[0] for x in st}, {nw}, "walkers-as-asked", options=o)
        pids = set().union(*[h['pids'] for h in H])
        if dict(o).get('--serial') == 'True':
            m.same(pids, {os.getpid()}, "serial-as-asked")
        conf = os.path.basename(path).split('.')[0]
        df = pd.read_csv(os.path.join(out, conf + '_chains.csv.bz2'))
        m.check(abs(len(df) - nw * ne * n / thin) <= nw * ne, "rows-as-asked", rows=len(df), options=o)
        m.state("real runs", (nw, ne, thin))


HELP = re.compile(r'(--\w+) [A-Z_]+(.*?)(?=\n\s+-|\Z)', re.S)


def u_help(m, rng, i):
    for sub in ('mcmc', 'fit', 'ns', 'plot', 'table', 'ic', 'report', 'derive'):
        err, text = cli([sub, '--help'])
        m.check(isinstance(err, SystemExit) and err.code in (0, None) and 'usage' in text, "help-is-given", command=sub)
        m.check('--setup' in text or '-s' in text, "help-is-given", command=sub)
        if sub == 'mcmc':
            lib = dict({k: p.default for k, p in inspect.signature(MCMC).parameters.items()}, **CLI_DEFAULT)
            known = {k: v[0] for k, v in OPTIONS.items()}
            n = 0
            for opt, body in HELP.findall(text[max(text.find('options:'), text.find('optional arguments:'), 0):]):
                q = re.search(r'\[(?:default=)?([^\],]+)[\],]', body)
                if opt in known and q:
                    n += 1
                    v = q.group(1).strip()
                    w = lib[known[opt]]
                    try:
                        ok = float(v) == float(w)
                    except ValueError:
                        ok = v == str(w)
                    m.check(ok, "help-states-the-default", option=opt, states=v, default=w)
            m.check(n >= 8, "help-states-the-default", found=n)
    err, text = cli(['--version'])
    m.check(isinstance(err, SystemExit) and radvel.__version__ in text, "help-is-given", what="version")


def u_ns(m, rng, i):
    with inside(os.path.join(m.scratch, 'n%d' % i)):
        s, path = small(rng, 'setups', 'sys')
        for rep in range(4):
            out = 'o%d' % rep
            kw = lambda: dict((str(k), gen.pick(rng, [3, 0, -2, .5, 2.0, 1e3, -4.0, 1e16, 400, 1e-3, True, False, 'rwalk', 'multi', 'a_b', 'x1.5y', '1e'])) for k in rng.permutation(['nlive', 'dlogz', 'sample', 'bound', 'print_progress'])[:int(rng.integers(1, 5))])
            text = lambda d: " ".join("%s=%s" % (k, gen.pick(rng, [str(v), str(v).lower()]) if isinstance(v, bool) else v) for k, v in d.items())
            smp = gen.pick(rng, [None, 'ultranest', 'dynesty-static', 'dynesty-dynamic', 'nautilus', 'multinest'])
            skw, rkw = (kw() if rng.random() < .6 else None), (kw() if rng.random() < .6 else None)
            flags = [f for f in ('--proceed', '--overwrite') if rng.random() < .3]
            opts = [('-s', path), ('-d', out)] + [(f, None) for f in flags] + ([('--sampler', smp)] if smp else [])
            if skw:
                opts.append(('--sampler-kwargs', text(skw)))
            if rkw:
                opts.append(('--run-kwargs', text(rkw)))
            a = ['ns'] + spelled(rng, opts)
            m.describe(command=a)
            with observed(NSRUN, [radvel.nested_sampling, radvel.driver, radvel.cli, radvel]) as calls:
                err, _ = cli(a)
            if not calls:
                m.event("library call not seen")
                continue
            g = calls[0]
            m.same(g['sampler'], smp or 'ultranest', "option-takes-effect" if smp else "default-as-documented", argument='sampler', command=a)
            for f in ('proceed', 'overwrite'):
                m.same(bool(g[f]), '--' + f in flags, "option-takes-effect", argument=f, command=a)
            for k, v in (('sampler_kwargs', skw), ('run_kwargs', rkw)):
                got = dict(g[k] or {})
                m.check(got == (v or {}) and all(type(got[x]) is type(v[x]) for x in (v or {})), "option-takes-effect", argument=k, got=got, want=v, command=a)
            m.check(g['output_dir'] is not None and os.path.abspath(g['output_dir']).startswith(os.path.abspath(out) + os.sep), "saved-chains-in-the-directory", got=g['output_dir'])
            m.same(sorted(g['post'].params), sorted(s.P), "analysis-is-of-the-setup-file")


def u_where(m, rng, i):
    """Setup files anywhere, results where they are asked for."""
    root = os.path.join(m.scratch, 'd%d' % i)
    with inside(root):
        known = {}
        nset = int(rng.integers(2, 4))
        here = {}
        for j in range(nset):
            d = str(gen.pick(rng, ['.', 'a', 'a/b.c', os.path.abspath('abs'), 'sp ace']))
            name = str(gen.pick(rng, ['sys', 'sys', 'HD_%d' % j, 'K2-%d' % j, 'GJ.%d' % j, 'py', 'x.py.v%d' % j]))
            key = os.path.abspath(os.path.join(d, name + '.py'))
            if key in here:
                continue
            os.makedirs(d, exist_ok=True)
            s, path = small(rng, d, name)
            here[key] = (s, path)
        prints = {}
        for key, (s, path) in here.items():
            conf = os.path.basename(path).split('.')[0]
            arg = gen.pick(rng, [path, os.path.abspath(path), './' + path if not os.path.isabs(path) else path])
            how = gen.pick(rng, ['none', 'none', 'new', 'existing', 'slash', 'abs'])
            if how == 'none':
                out, a = conf, []
            else:
                out = {'new': 'out_%d' % len(prints), 'existing': 'shared', 'slash': 'sl_%d' % len(prints), 'abs': os.path.abspath('ab_%d' % len(prints))}[how]
                if how == 'existing' and not os.path.isdir(out):
                    os.mkdir(out)
                    with open(os.path.join(out, 'notes.txt'), 'w') as f:
                        f.write('keep')
                a = ['-d', out + ('/' if how == 'slash' else '')]
            if (os.path.abspath(out), conf) in prints:
                continue
            before = tree('.')
            err, _ = cli(['fit'] + (['-s', arg] + a if rng.random() < .5 else a + ['--setup', arg]))
            m.check(err is None, "permitted-command-runs", command='fit', setup=arg, d=a, error=repr(err))
            if err is not None:
                continue
            after = tree('.')
            rel = os.path.relpath(out)
            new = sorted(f for f in after if f not in before and '__pycache__' not in f)
            m.check(all(os.path.dirname(f) == rel for f in new), "results-only-in-the-directory", new=new, directory=rel, command=a, setup=arg)
            m.same([f for f in before if after.get(f) != before[f]], [], "other-files-untouched", command=a, setup=arg)
            m.same(sorted(os.path.basename(f) for f in new), sorted([conf + '_post_obj.pkl', conf + '_radvel.stat']), "results-named-after-the-setup-file", setup=arg)
            prints[(os.path.abspath(out), conf)] = s
            p = radvel.posterior.load(os.path.join(out, conf + '_post_obj.pkl'))
            fixed = {k: float(q.value) for k, q in s.P.items() if not q.vary}
            m.same({k: float(p.params[k].value) for k in fixed if k in p.params}, fixed, "analysis-is-of-the-setup-file", setup=arg)
            m.close(np.sort(p.likelihood.x), np.sort(np.concatenate([s.data[k][0] for k in s.insts])), "analysis-is-of-the-setup-file", rtol=1e-15, what="times")
            m.state("where", (how, '.' in os.path.basename(path)[:-3], os.path.dirname(path)[:3]))
        # every analysis finds its own results again
        for (out, conf), s in prints.items():
            path = [q for t, q in here.values() if t is s][0]
            with observed(MCMC, [radvel, radvel.driver, radvel.cli]) as calls:
                err, _ = cli(['mcmc', '-s', path, '-d', os.path.relpath(out)])
            if calls:
                m.same({k: float(calls[0]['post'].params[k].value) for k, q in s.P.items() if not q.vary}, {k: float(q.value) for k, q in s.P.items() if not q.vary}, "analysis-is-of-the-setup-file", what="fit found again")
            else:
                m.check(isinstance(err, Reached), "permitted-command-runs", command='mcmc', error=repr(err))


PLOTKW = {'yscale_auto': [True, False], 'yscale_sigma': [2., 5.], 'phase_ncols': [1, 2], 'legend': [False, True], 'nobin': [True], 'highlight_last': [True], 'show_rms': [True],
          'phasetext_size': ['small'], 'figwidth': [6., 9.], 'fit_linewidth': [1.], 'text_size': [7]}


def u_plot(m, rng, i):
    with inside(os.path.join(m.scratch, 'p%d' % i)):
        gp = gen.pick(rng, [None, None, 'QuasiPer'])
        s, path, out = prepared(m, rng, '.', npl=int(rng.integers(1, 3)), gp=gp, insts=['j'] if gp else None)
        conf = os.path.basename(path).split('.')[0]
        kw = {k: gen.pick(rng, v) for k, v in PLOTKW.items() if rng.random() < .3 and not (gp and k in ('highlight_last', 'show_rms'))}     # not keywords of GP plots
        own = rng.random() < .4
        if own:
            kw['saveplot'] = os.path.join(str(gen.pick(rng, ['.', out])), 'mine.pdf')
        flag = bool(rng.random() < .75) and gp is not None
        a = ['plot'] + spelled(rng, [('-t', ['rv']), ('-s', path), ('-d', out)] + ([('--plotkw', repr(kw))] if kw else []) + ([('--gp', None)] if flag else []))
        m.describe(command=a)
        made = []
        back = []
        for C in (orbit_plots.MultipanelPlot, orbit_plots.GPMultipanelPlot):
            f = C.__dict__.get('__init__')
            if f is None:
                continue
            back.append((C, f))

            def init(self, *aa, _f=f, _C=C, **kk):
                if type(self) is _C:
                    made.append((type(self).__name__, dict(kk), list(aa), self))
                return _f(self, *aa, **kk)
            C.__init__ = init
        try:
            err, _ = cli(a)
        finally:
            for C, f in back:
                C.__init__ = f
        m.check(err is None, "permitted-command-runs", command=a, error=repr(err))
        if err is not None:
            return
        if made:
            cls, kk, aa, obj = made[-1]
            if flag or not gp:
                m.same(cls, 'GPMultipanelPlot' if flag else 'MultipanelPlot', "plot-of-the-right-kind", command=a, gp=gp)
            for k, v in kw.items():
                if k == 'saveplot':
                    continue
                if k in kk:
                    m.same(kk[k], v, "option-takes-effect", argument=k, command=a)
                elif hasattr(obj, k):
                    m.same(getattr(obj, k), v, "option-takes-effect", argument=k, command=a)
        f = kw.get('saveplot', os.path.join(out, conf + '_rv_multipanel.pdf'))
        m.check(os.path.isfile(f) and open(f, 'rb').read(5) == b'%PDF-', "plot-where-asked", file=f, command=a)
        if own:
            m.check(not os.path.exists(os.path.join(out, conf + '_rv_multipanel.pdf')), "plot-where-asked", what="only there", command=a)
        m.state("plot options", tuple(sorted(kw)))


def u_refuse(m, rng, i):
    with inside(os.path.join(m.scratch, 'x%d' % i)):
        s, path, out = prepared(m, rng, '.')
        bad = [['nonsense', '-s', path], ['mcmc', '-s', path, '-d', out, '--nwalker_s', '4'], ['mcmc', '-s', path, '-d', out, '--nwalkers', 'four'], ['mcmc', '-s', path, '-d', out, '--nwalkers', '4.5'],
               ['mcmc', '-s', path, '-d', out, '--thin', 'x'], ['plot', '-s', path, '-d', out, '-t', 'pie'], ['plot', '-s', path, '-d', out, '-t', 'rv', 'pie'], ['table', '-s', path, '-d', out, '-t', 'figures'],
               ['ic', '-s', path, '-d', out, '-t', 'planets'], ['ns', '-s', path, '-d', out, '--sampler', 'emcee'], ['derive', '-s', path, '-d', out, '--sampler', 'both'],
               ['fit', '-s', 'setups/absent.py', '-d', out], ['fit', '-s', 'setups', '-d', out], ['mcmc', '-s', path, '-d', out, '--nsteps'], ['table', '-s', path, '-d', out, '--sampler', 'x', '-t', 'rv'],
               ['plot', '-s', path, '-d', out, '-t', 'rv', '--plotkw', '{'], ['report', '-s', path, '-d', out, '--sampler', 'best'], ['fit', '-s', path, '-d', out, 'extra'],
               ['plot', '-s', path, '-d', out, '-t', 'rv', '--plotkw', "{'no_such_keyword': 1}"], ['ns', '-s', path, '-d', out, '--sampler-kwargs', 'nlive']]
        for a in [bad[j] for j in rng.permutation(len(bad))[:10]]:
            before = tree('.')
            with observed(MCMC, [radvel, radvel.driver, radvel.cli]) as calls:
                err, _ = cli(a)
            m.check(err is not None and not isinstance(err, Reached) and not (isinstance(err, SystemExit) and err.code in (0, None)), "refused", command=a, error=repr(err))
            after = tree('.')
            m.same({f: h for f, h in after.items() if '__pycache__' not in f}, {f: h for f, h in before.items() if '__pycache__' not in f}, "refused-without-effect", command=a)
            m.state("refused", (a[0], a[-2] if len(a) > 2 else '', type(err).__name__))


UNITS = [("real", u_real, 10, 120), ("plot", u_plot, 24, 160), ("mcmc", u_mcmc, 24, 300), ("where", u_where, 40, 500), ("ns", u_ns, 24, 300), ("refuse", u_refuse, 12, 100), ("help", u_help, 1, 1)]
REQUIRED = ["option-takes-effect", "default-as-documented", "results-only-in-the-directory", "results-named-after-the-setup-file", "analysis-is-of-the-setup-file", "refused", "refused-without-effect",
            "rows-as-asked", "plot-where-asked", "help-states-the-default"]
