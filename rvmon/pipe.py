"""Complete analyses through the command line: generated setup files, commands in one process, files compared before and after."""
import configparser, hashlib, os, pickle, sys
import numpy as np
import pandas as pd
import radvel, radvel.cli, radvel.driver
from . import gen, ref, setups
from .chains import Recorder, silent
from .core import Skip

# radvel's derived quantities, from their definitions (SI, IAU 2015 / CODATA 2018 as in astropy 4+)
G, MSUN, MJUP, MEARTH, AU, REARTH, DAY = 6.6743e-11, 1.988409870698051e30, 1.8981245973360505e27, 5.972167867791379e24, 1.495978707e11, 6.3781e6, 86400.


def stellar_mass_function(k, per, e):
    """mp sin i in units Mstar^(2/3), for mp << Mstar [kg^(1/3)]"""
    return k * np.sqrt(1 - e ** 2) * (per * DAY / (2 * np.pi * G)) ** (1 / 3.)


class Pipe:
    def __init__(self, m, rng, i, ns=False, npl=None, gp=None, stellar=True, insts=None, nobs=None, decorr=None, maxfree=5, letters=None, basis=None, trend=None,
                 starname=None, priors=True, emax=.4, linear=None, planet=None, epoch=None):
        self.m, self.rng = m, rng
        self.name = str(gen.pick(rng, ['sys%d' % i, 'HD_%d' % i, 's%d_a-b' % i]))
        self.root = os.path.join(m.scratch, "pipe%d" % i)
        os.makedirs(self.root, exist_ok=True)
        npl = int(gen.pick(rng, [1, 1, 2])) if npl is None else npl
        basis = basis or gen.pick(rng, ref.BASES)
        self.s = s = gen.system(radvel, rng, npl=npl, basis=basis, gp=gp, emax=emax, nobs=nobs or int(rng.integers(7, 12)), vary=(0,), linear=(False if ns or gp else linear),
                                insts=insts if insts is not None else (['j'] if gp else gen.pick(rng, [['j'], ['k', 'j'], ['hires_rj', 'apf', 'k'], ['a', 'ab'], ['j', 'j1']])),
                                decorr=[] if gp or ns else (decorr if decorr is not None else gen.pick(rng, [[], [], ['airmass']])), letters=letters, trend=trend, epoch=epoch)
        P = s.P
        names = [k for k in P if not P[k].linear]
        want = [k for k in names if k[0] == 'k' or k.startswith('gamma') or k.startswith('logk')]
        rest = [k for k in names if k not in want]
        free = [want[j] for j in rng.permutation(len(want))][:2 if ns else 3]
        nrest = int(rng.integers(0, max(1, (3 if ns else maxfree) - len(free) + 1)))
        free += [rest[j] for j in rng.permutation(len(rest))][:nrest]
        # the period and time of a planet are well determined only together with it
        for k in list(free):
            if k[:3] in ('per', 'log') and P[k].value in (0., 1.):
                free.remove(k)
        if not free:
            raise Skip("nothing free")
        for k in free:
            P[k].vary = True
        v = gen.values(P)
        # the analysis starts some way off
        self.truth = dict(v)
        for k in free:
            if k.startswith('gamma') or (k[0] == 'k' and k[1:].isdigit()):
                P[k].value = v[k] * 1.3 + 2.
        v = gen.values(P)
        pri, self.prior_objs = [], []
        rp = radvel.prior
        def add(cls, *a):
            pri.append("radvel.prior.%s(%s)" % (cls, ", ".join(repr(x) for x in a)))
        for k in free:
            if ns:
                w = abs(v[k]) * .6 + 6. if (k.startswith('gamma') or k[0] == 'k') else abs(v[k]) * 1e-3 + .05
                if k.startswith('jit'):
                    add('HardBounds', k, 0., 30.)
                elif k[:2] == 'e1' or k[:2] == 'e2':
                    add('HardBounds', k, 0., .8)
                elif k[:2] == 'se':
                    add('HardBounds', k, 0., .6)
                elif rng.random() < .5:
                    add('HardBounds', k, v[k] - w, v[k] + w)
                else:
                    add('Gaussian', k, v[k], w)
            elif k.startswith('log') and not k.startswith('logjit'):
                # an improper posterior lets walkers diverge
                add('HardBounds', k, float(v[k] - 4.), float(v[k] + 4.))
            elif k.startswith('gp'):
                add('HardBounds', k, v[k] / 10, v[k] * 10)
            elif k.startswith('jit'):
                pri.append("radvel.prior.%s" % (("HardBounds(%r, 0., 30.)" if rng.random() < .5 else "Jeffreys(%r, 0.001, 100.)") % k))
            elif k.startswith('per'):
                # weak planets have any period, even below zero
                if rng.random() < .4:
                    add('Gaussian', k, float(v[k]), .01)
                else:
                    add('HardBounds', k, float(v[k]) * .5, float(v[k]) * 2)
            elif rng.random() < .3 and priors:
                add('Gaussian', k, float(v[k]), float(abs(v[k]) * .3 + .5) if k[:3] not in ('per', 'log') else .01)
        ecc = [k for k in free if k[:2] in ('se', 'ec', 'es') or k in ('e1', 'e2')]
        if (ecc or rng.random() < .3) and npl and not ns:
            add('EccentricityPrior', npl)
        if any(k[0] == 'k' for k in free) and not ns and rng.random() < .4:
            add('PositiveKPrior', npl)
        self.free, self.npl, self.priors = free, npl, pri
        self.mstar_err = float(gen.pick(rng, [0., 0., .03, .1]))
        self.stellar = dict(mstar=float(rng.uniform(.1, 2.5)), mstar_err=self.mstar_err) if stellar else None
        self.planet = planet
        if planet is None and stellar and rng.random() < .5:
            self.planet = {}
            for n in range(1, npl + 1):
                if rng.random() < .7:
                    self.planet['rp%d' % n] = float(rng.uniform(.5, 15))
                    self.planet['rp_err%d' % n] = float(gen.pick(rng, [0., .1]))
        self.setup, self.df = setups.write(self.root, s, name=self.name, priors=pri, stellar=self.stellar, planet=self.planet or None, rng=rng, letters=letters,
                                           starname=starname or self.name, bjd0=float(gen.pick(rng, [0., 2450000.])))
        self.out = os.path.join(self.root, str(gen.pick(rng, ['out', 'results_1'])))
        self.decorr = bool(s.decorr)
        m.describe(name=self.name, basis=s.basis, npl=npl, insts=s.insts, free=free, priors=pri, decorr=s.decorr, trend=s.trend, stellar=self.stellar, planet=self.planet)

    # ---- commands
    def cmd(self, sub, *argv, decorr=None):
        """Runs a command; returns None or the exception that refused it."""
        a = ['radvel', sub, '-s', self.setup, '-d', self.out] + (['--decorr'] if self.decorr and sub in ('fit', 'mcmc', 'ns', 'ic', 'plot') else []) + [str(x) for x in argv]
        old, cwd = sys.argv, os.getcwd()
        sys.argv = a
        err = None
        np.random.seed(int(self.rng.integers(2 ** 31)))
        try:
            with silent():
                radvel.cli.main()
        except (Exception, SystemExit) as e:
            err = e
        finally:
            sys.argv = old
            here = os.getcwd()
            os.chdir(cwd)
            if sub in ('plot', 'report'):
                import matplotlib.pyplot as pl
                pl.close('all')
        self.m.event("command:" + sub)
        self.m.check(os.path.realpath(here) == os.path.realpath(cwd), "working-directory-kept", command=a[1:])
        return err

    def must(self, sub, *argv):
        err = self.cmd(sub, *argv)
        if err is not None:
            import traceback
            tb = traceback.extract_tb(err.__traceback__)
            self.m.check(False, "permitted-step-runs", command=[sub] + [str(a) for a in argv], error="%s: %s" % (type(err).__name__, err),
                         where=["%s:%d %s" % (os.path.basename(f.filename), f.lineno, f.name) for f in tb[-4:]])
            return False
        self.m.check(True, "permitted-step-runs")
        return True

    # ---- files
    @property
    def statfile(self):
        return os.path.join(self.out, self.name.split('.')[0] + '_radvel.stat')

    def status(self):
        c = configparser.RawConfigParser()
        c.read(self.statfile)
        return {s: dict(c.items(s)) for s in c.sections()}

    def tree(self):
        out = {}
        for dp, dn, fn in os.walk(self.out):
            for f in fn:
                p = os.path.join(dp, f)
                with open(p, 'rb') as h:
                    out[os.path.relpath(p)] = hashlib.sha1(h.read()).hexdigest()
        return out

    def file(self, section, key):
        return self.status()[section][key]

    def post(self, section):
        return radvel.posterior.load(self.file(section, 'postfile'))

    def table(self, section, key='chainfile'):
        return pd.read_csv(self.file(section, key))

    def initial(self):
        P, post = radvel.utils.initialize_posterior(self.setup, decorr=self.decorr)
        return P, post


def latex_standin(path):
    """A compiler that records its input and writes a PDF file."""
    with open(path, 'w') as f:
        f.write("#!/bin/sh\ncat \"$1\" > /dev/null || exit 1\nprintf '%%PDF-1.4 stand-in\\n' > \"${1%.tex}.pdf\"\n")
    os.chmod(path, 0o755)
    return path
