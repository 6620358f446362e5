"""Workload of C22: runs in a process of its own whose radvel._kepler is an instrumented build (or, for the
length workload, an address-space limited plain build).  Observations go to a file as JSON lines; a sanitizer report ends
the process."""
import gc, json, os, struct, sys
import numpy as np

TINY = np.finfo(float).tiny
SPECIAL = np.array([0.0, -0.0, np.nan, np.inf, -np.inf, 5e-324, -5e-324, TINY, -TINY, 1e308, -1e308, np.finfo(float).max, 1.0, -1.0,
                    np.nextafter(1, 0), np.nextafter(1, 2), 0.5, -0.5, 2.0, np.pi, 2 * np.pi, -np.pi, np.nextafter(np.pi, 4), 1e-8, 1e-16, 1e16,
                    2.0 ** 31, -2.0 ** 31, 2.0 ** 53, 2.0 ** 63, 2.0 ** 64, 1e-300, 1e300, 0.99, 0.999999])


def anyfloat(rng, n=None):
    k = 1 if n is None else n
    out = np.empty(k)
    m = rng.integers(0, 5, k)
    bits = rng.integers(0, 2 ** 64, k, dtype=np.uint64).view(float)
    out[:] = np.where(m == 0, bits, np.where(m == 1, rng.choice(SPECIAL, k),
                      np.where(m == 2, rng.uniform(-1e4, 1e4, k), np.where(m == 3, rng.uniform(0, 1, k),
                               10.0 ** rng.uniform(-320, 308, k) * rng.choice([-1, 1], k)))))
    return float(out[0]) if n is None else out


LAYOUTS = ["contiguous", "empty", "single", "stride", "reversed", "backstride", "column", "packed", "byteoffset", "broadcast", "fortran-row",
           "readonly", "subclass", "memmap", "long", "window"]


def layout(rng, name, vals, tmp):
    n = len(vals)
    if name == "empty":
        return np.array([])
    if name == "single":
        return vals[:1].copy()
    if name == "stride":
        s = int(rng.integers(2, 9)); big = anyfloat(rng, n * s); big[::s] = vals; return big[::s]
    if name == "reversed":
        return vals[::-1]
    if name == "backstride":
        s = int(rng.integers(2, 9)); big = anyfloat(rng, n * s); return big[::-s]
    if name == "column":
        big = anyfloat(rng, n * 3).reshape(n, 3); big[:, 1] = vals; return big[:, 1]
    if name == "fortran-row":
        big = np.asfortranarray(anyfloat(rng, n * 3).reshape(3, n)); big[2] = vals; return big[2]
    if name == "packed":
        r = np.zeros(n, dtype=[("tag", "S%d" % int(rng.integers(1, 8))), ("t", "f8"), ("f", "i1")]); r["t"] = vals; return r["t"]
    if name == "byteoffset":
        o = int(rng.integers(1, 8)); b = np.zeros(8 * n + 8, np.uint8); v = b[o:o + 8 * n].view(float); v[:] = vals; return v
    if name == "broadcast":
        return np.lib.stride_tricks.as_strided(np.array([vals[0]]), (n,), (0,))
    if name == "readonly":
        v = vals.copy(); v.setflags(write=False); return v
    if name == "subclass":
        return np.ma.array(vals, mask=False) if rng.integers(2) else vals.view(type("Sub", (np.ndarray,), {}))
    if name == "memmap":
        f = os.path.join(tmp, "m.dat"); vals.tofile(f); return np.memmap(f, dtype=float, mode="r+", shape=(n,))
    if name == "long":
        return np.resize(vals, int(rng.integers(20000, 60000)))
    if name == "window":       # the neighbourhood of the window must not matter nor change
        big = np.full(n + 64, 7.25); big[32:32 + n] = vals; return big[32:32 + n]
    return vals.copy()


def agree(a, b, scale):
    a, b = np.asarray(a, float), np.asarray(b, float)
    with np.errstate(all="ignore"):
        return (a == b) | (np.isnan(a) & np.isnan(b)) | (np.abs(a - b) <= 1e-9 * np.minimum(np.abs(scale), 1e300) + 1e-300)


def observe(k, rng, tmp, out, cases):
    """k: the extension module."""
    for c in range(cases):
        name = LAYOUTS[(c + int(rng.integers(2))) % len(LAYOUTS)]
        n = int(rng.integers(1, 40))
        vals = anyfloat(rng, n)
        if rng.integers(2):
            vals = rng.uniform(-1e3, 1e3, n)
        t = layout(rng, name, vals, tmp)
        mode = int(rng.integers(4))
        per, tp, e, om, kk = (anyfloat(rng), anyfloat(rng), anyfloat(rng), anyfloat(rng), anyfloat(rng))
        if mode > 0:
            per, tp, e, om, kk = [float(x) for x in (10 ** rng.uniform(-1, 4), rng.uniform(-1e4, 1e4), rng.uniform(0, .99), rng.uniform(-7, 7),
                                                     10 ** rng.uniform(-3, 3))]
            if mode == 2 and rng.integers(2):       # nearly parabolic, times about periastron
                e = float(1 - 10 ** rng.uniform(-9, -2))
                if name != "readonly" and t.flags.writeable and t.size and rng.integers(2):
                    t[...] = tp + per * 10 ** rng.uniform(-9, 0, t.shape)
            if mode == 1:
                w = int(rng.integers(5)); v = anyfloat(rng)
                per, tp, e, om, kk = [v if j == w else x for j, x in enumerate((per, tp, e, om, kk))]
        el = (per, tp, e, om, kk)
        base = t.base if isinstance(t.base, np.ndarray) else t
        before, tb = base.tobytes(), np.array(t, dtype=float)
        refs = sys.getrefcount(t)
        rec = {"layout": name, "n": len(t), "elements": [repr(x) for x in el], "mode": mode, "obs": {}}
        rv = k.rv_drive_array(t, *el)
        ob = rec["obs"]
        ob["one-velocity-per-time"] = np.shape(rv) == np.shape(t)
        ob["input-unchanged"] = base.tobytes() == before
        ob["no-reference-kept"] = sys.getrefcount(t) == refs
        ob["output-is-new"] = not np.shares_memory(rv, base)
        if ob["one-velocity-per-time"]:
            r = np.asarray(rv, float)
            # each output depends on its own input alone
            idx = rng.integers(0, len(tb), min(len(tb), 6)) if len(tb) else []
            one = [float(k.rv_drive_array(np.array([tb[j]]), *el)[0]) for j in idx]
            ob["elementwise"] = bool(agree([r[j] for j in idx], one, kk if np.isfinite(kk) else 0).all())
            perm = rng.permutation(len(tb))
            ob["order-independent"] = bool(agree(k.rv_drive_array(tb[perm], *el), r[perm], kk if np.isfinite(kk) else 0).all())
            badel = not np.isfinite([tp, e, om, kk]).all() or np.isnan(per)
            if badel:
                ob["nonfinite-element-gives-nonfinite"] = not np.isfinite(r).any()
                rec["input"] = [repr(x) for x in tb[np.isfinite(r)][:3]] if not ob["nonfinite-element-gives-nonfinite"] else 0
            elif np.isfinite(per):
                ob["nonfinite-time-gives-nonfinite"] = not np.isfinite(r[~np.isfinite(tb)]).any()
            if not badel and per > 0 and np.isfinite(per) and 0 <= e <= 1 - 1e-9:
                fin = r[np.isfinite(r)]
                ob["speed-bounded"] = bool((np.abs(fin) <= abs(kk) * (1 + e) * (1 + 1e-6) + 1e-300).all())
                span = np.abs(tb - tp) / per
                with np.errstate(all="ignore"):
                    well = np.isfinite(tb) & (span < 1e6) & (abs(kk) < 1e300) & (np.abs(om) < 1e6)
                ob["finite-orbit-gives-finite"] = bool(np.isfinite(r[well]).all())
        if not ob.get("elementwise", True) or not ob["one-velocity-per-time"]:
            rec["detail"] = {"t": [repr(x) for x in tb[:8]], "got": [repr(x) for x in np.asarray(rv, float)[:8]]}
        # Kepler's equation alone
        if name != "readonly":
            refs = sys.getrefcount(t)
            E = k.kepler_array(t, e)
            ob["one-anomaly-per-value"] = np.shape(E) == np.shape(t)
            ob["solver-input-unchanged"] = base.tobytes() == before
            ob["no-reference-kept"] = ob["no-reference-kept"] and sys.getrefcount(t) == refs
            ob["output-is-new"] = ob["output-is-new"] and not np.shares_memory(E, base)
            if ob["one-anomaly-per-value"]:
                bad = ~np.isfinite(tb) if np.isfinite(e) else np.ones(len(tb), bool)
                ob["solver-nonfinite-gives-nonfinite"] = not np.isfinite(E[bad]).any()
                with np.errstate(all="ignore"):
                    res = np.abs(E - e * np.sin(E) - tb)
                    ok = ~np.isfinite(E) | (res <= 2e-12 + 1e-14 * (np.abs(tb) + np.abs(E)))
                ob["solver-answer-is-a-root"] = bool(ok[~bad].all())
                if 0 <= e <= 1 - 1e-9:
                    ob["solver-finite-gives-finite"] = bool(np.isfinite(E[np.abs(tb) < 1e6]).all())
                if 0 <= e <= .99:
                    ob["solver-answers-ellipses"] = bool(np.isfinite(E[np.isfinite(tb) & (np.abs(tb) < 1e15)]).all())
                j = int(rng.integers(len(tb))) if len(tb) else None
                if j is not None:
                    ob["solver-elementwise"] = bool(agree([E[j]], [k.kepler_array(np.array([tb[j]]), e)[0]], 1 + abs(tb[j])).all())
                if not all(ob.values()):
                    rec.setdefault("detail", {}).update(M=[repr(x) for x in tb[:6]], E=[repr(x) for x in E[:6]], e=repr(e))
        out(rec)


def refusals(k, rng, out):
    """Arguments of a wrong type or shape raise and leak nothing."""
    bad = [np.arange(3), np.zeros((2, 2)), np.zeros(3, np.float32), np.zeros(3, ">f8"), np.zeros(3, complex), None, "abc", object(), 3.0,
           np.array(["a"]), np.array([None, 1.0]), np.array(5.0), [1.0, 2.0]]
    good = np.zeros(3)
    for x in bad:
        r0 = sys.getrefcount(x)
        res = []
        for f in (lambda: k.rv_drive_array(x, 1., 0., .1, .2, 3.), lambda: k.kepler_array(x, .3)):
            try:
                f(); res.append("accepted")
            except (TypeError, ValueError, AttributeError, BufferError) as ex:
                res.append(type(ex).__name__)
        gc.collect()
        out({"layout": "refusal", "n": 0, "elements": [str(type(x)), str(getattr(x, "dtype", ""))], "mode": -1, "results": res,
             "obs": {"wrong-array-refused": "accepted" not in res or isinstance(x, list), "no-reference-kept": sys.getrefcount(x) <= r0 + 1}})
    for x in (None, "a", [1.0], 1j):
        r0 = sys.getrefcount(good)
        res = []
        for pos in range(5):
            el = [1., 0., .1, .2, 3.]; el[pos] = x
            try:
                k.rv_drive_array(good, *el); res.append("accepted")
            except TypeError:
                res.append("TypeError")
        out({"layout": "refusal", "n": 3, "elements": [repr(x)], "mode": -2, "results": res,
             "obs": {"wrong-element-refused": "accepted" not in res, "no-reference-kept": sys.getrefcount(good) == r0}})


def leaks(k, rng, out):
    """Memory in use after many calls, including failing ones."""
    t = rng.uniform(0, 100, 50)
    def burst(n):
        for _ in range(n):
            k.rv_drive_array(t, 3., 0., .3, .2, 3.)
            k.kepler_array(t, .3)
            try:
                k.rv_drive_array(t, None, 0., .3, .2, 3.)
            except TypeError:
                pass
            try:
                k.rv_drive_array(t.astype(int), 1., 0., .3, .2, 3.)
            except ValueError:
                pass
    burst(2000)
    gc.collect()
    a0, r0 = sys.getallocatedblocks(), rss()
    burst(20000)
    gc.collect()
    out({"layout": "leak", "n": 20000, "elements": [], "mode": -3, "blocks": sys.getallocatedblocks() - a0, "rss_kb": rss() - r0,
         "obs": {"no-blocks-leaked": sys.getallocatedblocks() - a0 < 2000, "no-memory-leaked": rss() - r0 < 6000}})


def rss():
    with open("/proc/self/statm") as f:
        return int(f.read().split()[1]) * 4


def lengths(k, rng, out):
    """Lengths near and beyond 2^31 under an address-space limit: right answer or MemoryError, never a wrong length."""
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    for n in (2 ** 31 - 1, 2 ** 31, 2 ** 31 + 1, 2 ** 32 - 1, 2 ** 32, 2 ** 32 + 3, 2 ** 33 + 17):
        x = np.lib.stride_tricks.as_strided(np.array([1.0]), (n,), (0,))
        for fn, f in (("kepler_array", lambda: k.kepler_array(x, .3)), ("rv_drive_array", lambda: k.rv_drive_array(x, 3., 0., .3, .2, 3.))):
            try:
                r = len(f())
            except MemoryError:
                r = "MemoryError"
            except Exception as ex:
                r = repr(ex)
            out({"layout": "length", "n": n, "elements": [fn], "mode": -4, "got": r, "obs": {"huge-length-not-truncated": r in (n, "MemoryError")}})
    big = np.arange(3 * 10 ** 6, dtype=float)
    r = k.rv_drive_array(big, 3., 0., .3, .2, 3.)
    out({"layout": "length", "n": len(big), "elements": ["rv_drive_array"], "mode": -5,
         "obs": {"long-array-answered": len(r) == len(big) and bool(np.isfinite(r).all())}})


def threads(k, rng, out):
    """Concurrent callers see their own results."""
    import concurrent.futures as cf
    ts = [rng.uniform(-100, 100, 300) for _ in range(8)]
    els = [(float(10 ** rng.uniform(0, 2)), 0., float(rng.uniform(0, .9)), 1., 10.) for _ in ts]
    want = [k.rv_drive_array(t, *e) for t, e in zip(ts, els)]
    def go(j):
        return all(np.array_equal(k.rv_drive_array(ts[j], *els[j]), want[j]) for _ in range(300))
    with cf.ThreadPoolExecutor(8) as ex:
        res = list(ex.map(go, range(8)))
    out({"layout": "threads", "n": 8, "elements": [], "mode": -6, "obs": {"concurrent-calls-independent": all(res)}})


def package(rng, out, cases):
    """The extension as the package calls it: models and likelihoods, hostile values as a sampler proposes."""
    import warnings
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    import radvel
    from radvel import kepler
    for c in range(cases):
        n = int(rng.integers(0, 30))
        t = layout(rng, LAYOUTS[c % len(LAYOUTS)], anyfloat(rng, max(n, 1)), ".")
        if c % 3:
            t = layout(rng, LAYOUTS[c % len(LAYOUTS)], rng.uniform(-500, 500, max(n, 1)), ".")
        el = [anyfloat(rng) for _ in range(5)] if c % 2 else [10 ** rng.uniform(0, 3), 0., rng.uniform(0, 1.2), 1., 5.]
        before = np.array(t, float).tobytes()
        rv = kepler.rv_drive(t, el, use_c_kepler_solver=True)
        tt = np.array(t, float)
        obs = {"package-one-velocity-per-time": np.shape(rv) == np.shape(t), "package-input-unchanged": tt.tobytes() == before}
        per, tp, e, om, k = el
        if obs["package-one-velocity-per-time"]:
            if not np.isfinite([tp, om, k]).all() or np.isnan(per) or np.isnan(e):
                obs["package-nonfinite-gives-nonfinite"] = not np.isfinite(np.asarray(rv)).any()
            elif np.isfinite(per):
                obs["package-nonfinite-gives-nonfinite"] = not np.isfinite(np.asarray(rv)[~np.isfinite(tt)]).any()
        out({"layout": "package/" + LAYOUTS[c % len(LAYOUTS)], "n": len(t), "elements": [repr(float(x)) for x in el], "mode": 10, "obs": obs,
             "detail": {"t": [repr(x) for x in tt[:4]], "rv": [repr(x) for x in np.asarray(rv)[:4]]} if not all(obs.values()) else 0})
        if c % 6 == 0:
            P = radvel.Parameters(2, basis="per tc secosw sesinw k")
            for j in (1, 2):
                for q, v in zip(("per", "tc", "secosw", "sesinw", "k"), (10. * j, 1., .1, .1, 5.)):
                    P[q + str(j)] = radvel.Parameter(value=v)
            P["gamma"] = radvel.Parameter(value=0.); P["jit"] = radvel.Parameter(value=1.)
            P["dvdt"] = radvel.Parameter(value=0.); P["curv"] = radvel.Parameter(value=0.)
            x = rng.uniform(0, 100, 20)
            like = radvel.likelihood.RVLikelihood(radvel.RVModel(P), x, rng.normal(0, 1, 20), np.ones(20))
            ok = True
            for _ in range(20):
                v = like.get_vary_params()
                for j in rng.integers(0, len(v), 2):
                    v[j] = anyfloat(rng)
                lp = like.logprob_array(v)
                ok = ok and np.ndim(lp) == 0
            out({"layout": "likelihood", "n": 20, "elements": [], "mode": 11, "obs": {"likelihood-survives": bool(ok)}})


def main():
    so, kind, seed, index, cases, path = sys.argv[1:7]
    rng = np.random.default_rng([int(seed), int(index), sum(map(ord, kind))])
    import importlib.machinery, importlib.util
    np.seterr(all="ignore")
    fh = open(path, "w")
    def out(rec):
        rec["obs"] = {a: bool(b) for a, b in rec["obs"].items()}
        fh.write(json.dumps(rec) + "\n"); fh.flush()
    if kind == "package":
        class Finder:
            @staticmethod
            def find_spec(name, p=None, target=None):
                if name == "radvel._kepler":
                    return importlib.util.spec_from_file_location(name, so, loader=importlib.machinery.ExtensionFileLoader(name, so))
        sys.meta_path.insert(0, Finder)
        sys.path.insert(0, os.environ["RVMON_REPO"])
        package(rng, out, int(cases))
    else:
        loader = importlib.machinery.ExtensionFileLoader("_kepler", so)
        k = importlib.util.module_from_spec(importlib.util.spec_from_file_location("_kepler", so, loader=loader))
        loader.exec_module(k)
        if kind == "raw":
            observe(k, rng, ".", out, int(cases))
        else:
            {"refusals": refusals, "leaks": leaks, "lengths": lengths, "threads": threads}[kind](k, rng, out)
    fh.write(json.dumps({"done": True}) + "\n")
    fh.close()


if __name__ == "__main__":
    main()
