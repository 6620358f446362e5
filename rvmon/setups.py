"""Writes setup files (radvel's configuration format) from generated systems."""
import os
import numpy as np
import pandas as pd


def frame(s, rng=None):
    rows = []
    for i in s.insts:
        t, y, err, dv = s.data[i]
        d = {'time': t, 'mnvel': y, 'errvel': err, 'tel': i}
        d.update(dv)
        rows.append(pd.DataFrame(d))
    df = pd.concat(rows, ignore_index=True)
    if rng is not None:
        df = df.iloc[rng.permutation(len(df))].reset_index(drop=True)
    return df


def write(directory, s, name='setup', priors=(), stellar=None, planet=None, letters=None, rng=None, starname=None, bjd0=0., order=None, pre='', decl=None):
    """A setup file for the system; returns (path, data frame)."""
    os.makedirs(directory, exist_ok=True)
    df = frame(s, rng)
    csv = os.path.join(directory, name + '_data.csv')
    df.to_csv(csv, index=False, float_format='%.17g')
    L = ["import numpy as np", "import pandas as pd", "import radvel", "from collections import OrderedDict", pre,
         "starname = %r" % (starname or name), "nplanets = %d" % s.npl, "instnames = %r" % list(order or s.insts), "ntels = len(instnames)",
         "fitting_basis = %r" % s.basis, "bjd0 = %r" % bjd0,
         "planet_letters = %r" % (letters or {n: chr(97 + n) for n in range(1, s.npl + 1)}),
         "params = radvel.Parameters(nplanets, basis=fitting_basis%s)" % (", planet_letters=planet_letters" if letters else "")]
    for k in (decl or list(s.P)):
        p = s.P[k]
        L.append("params[%r] = radvel.Parameter(value=%r, vary=%r, linear=%r)" % (k, float(p.value), bool(p.vary), bool(p.linear)))
    L.append("data = pd.read_csv(%r)" % csv)
    L.append("time_base = %r" % float(s.time_base))
    L.append("priors = [%s]" % ",\n    ".join(priors))
    if s.decorr:
        L.append("decorr_vars = %r" % list(s.decorr))
    if s.gp:
        L.append("hnames = %r" % {i: list(s.hnames[i] if isinstance(s.hnames, dict) else s.hnames) for i in s.insts})
        L.append("kernel_name = %r" % {i: s.gp for i in s.insts})
    if stellar is not None:
        L.append("stellar = %r" % stellar)
    if planet is not None:
        L.append("planet = %r" % planet)
    path = os.path.join(directory, name + '.py')
    with open(path, 'w') as f:
        f.write("\n".join(L) + "\n")
    return path, df
