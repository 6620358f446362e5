"""Monitor runtime: cases, observations, verdicts.

A check module lists UNITS; a unit is a function unit(m, rng, i) that drives the real code through one case and
reports what it observed to the monitor `m`.  Every observation (m.check, m.close, ...) is counted under the name of
the monitor that made it; a false one is a violation.  Nothing here stops at the first violation.
"""
import collections, contextlib, hashlib, json, os, sys, traceback, zlib
import numpy as np

REPO = os.environ.get("RVMON_REPO", "/repo")
VERIF_ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class StepBudgetExceeded(BaseException):
    pass


class HarnessError(Exception):
    pass


def jsonable(x, depth=0):
    if depth > 6:
        return repr(x)[:200]
    if isinstance(x, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in list(x.items())[:60]}
    if isinstance(x, (list, tuple, set)):
        return [jsonable(v, depth + 1) for v in list(x)[:60]]
    if isinstance(x, np.ndarray):
        return {"shape": list(x.shape), "head": [jsonable(v, depth + 1) for v in x.ravel()[:12]]}
    if isinstance(x, (np.floating, float)):
        return float(x) if np.isfinite(x) else repr(float(x))
    if isinstance(x, (np.integer,)):
        return int(x)
    if isinstance(x, (np.bool_,)):
        return bool(x)
    if isinstance(x, (str, int, bool)) or x is None:
        return x if not isinstance(x, str) else x[:2000]
    return repr(x)[:300]


def from_repo(exc):
    """Does the traceback pass through the code under test?"""
    tb = exc.__traceback__
    pkg = os.path.join(os.path.realpath(REPO), "radvel") + os.sep
    while tb is not None:
        f = tb.tb_frame.f_code.co_filename
        if f.startswith(pkg) or os.path.basename(f) in ("_kepler.pyx", "src/_kepler.pyx") or f.endswith("_kepler.pyx"):
            return True
        tb = tb.tb_next
    return False


class Lines:
    """Line events of the code under test (sys.monitoring): which lines ran, and a step budget."""
    TOOL = 3

    def __init__(self):
        self.seen = collections.defaultdict(set)
        self.pkg = os.path.join(os.path.realpath(REPO), "radvel") + os.sep
        self.tests = self.pkg + "tests" + os.sep
        self.budget = None
        self.left = 0
        mon = sys.monitoring
        self.mon = mon
        mon.use_tool_id(self.TOOL, "rvmon-cov")
        mon.register_callback(self.TOOL, mon.events.LINE, self._cov)
        mon.set_events(self.TOOL, mon.events.LINE)
        mon.use_tool_id(self.TOOL + 1, "rvmon-steps")
        mon.register_callback(self.TOOL + 1, mon.events.LINE, self._step)

    def _cov(self, code, line):
        f = code.co_filename
        if f.startswith(self.pkg) and not f.startswith(self.tests):
            self.seen[f[len(self.pkg):]].add(line)
        return self.mon.DISABLE

    def _step(self, code, line):
        if not code.co_filename.startswith(self.pkg):
            return self.mon.DISABLE
        self.left -= 1
        if self.left < 0:
            self.left = 10 ** 9
            raise StepBudgetExceeded("%s:%d" % (code.co_filename, line))

    @contextlib.contextmanager
    def steps(self, n):
        mon = self.mon
        self.left = n
        mon.set_events(self.TOOL + 1, mon.events.LINE)
        try:
            yield
        finally:
            mon.set_events(self.TOOL + 1, 0)


class Mon:
    def __init__(self, pid, tier, seed, sink, lines=None, max_report=4):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.quick = tier == "quick"
        self.sink = sink
        self.lines = lines
        self.max_report = max_report
        self._reset()

    def _reset(self):
        self.counts = collections.Counter()
        self.events = collections.Counter()
        self.states = collections.defaultdict(set)
        self.viol = []
        self.errs = []
        self.samples = []
        self.desc = {}

    # ---- case handling
    def run_case(self, uname, ufunc, i):
        self._reset()
        self.sink({"t": "begin", "unit": uname, "i": i})
        rng = np.random.default_rng([self.seed, zlib.crc32(uname.encode()), i])
        np.random.seed(zlib.crc32(("%s/%d/%d" % (uname, self.seed, i)).encode()) & 0x7fffffff)
        self.case_id = (uname, i)
        cut = None
        try:
            ufunc(self, rng, i)
        except StepBudgetExceeded as e:
            self._violate("does-not-return", {"where": str(e)})
        except Skip as e:
            self.events["skipped:" + str(e)] += 1
        except Cut as e:
            cut = e.key
        except Exception as e:
            if from_repo(e):
                self._violate("unexpected-exception", {"exception": repr(e)[:500],
                                                       "traceback": traceback.format_exc()[-2500:]})
            elif isinstance(e, (OSError, MemoryError, ImportError, HarnessError)):
                self.errs.append(traceback.format_exc()[-3000:])
            else:
                # what the code under test handed over is not what an oracle can be held against
                self._violate("observation-interpretable", {"exception": repr(e)[:500], "traceback": traceback.format_exc()[-2500:]})
        sig = hashlib.sha1(json.dumps(jsonable(self.desc), sort_keys=True, default=repr).encode()
                           + uname.encode()).hexdigest()[:16]
        self.sink({"t": "end", "unit": uname, "i": i, "sig": sig, "counts": dict(self.counts),
                   "events": dict(self.events), "states": {k: sorted(map(str, v)) for k, v in self.states.items()},
                   "viol": self.viol[:self.max_report], "nviol": len(self.viol), "errs": self.errs[:2],
                   "desc": jsonable(self.desc), "samples": jsonable(self.samples[:2])})

    def describe(self, **kw):
        self.desc.update(kw)

    def event(self, name, n=1):
        self.events[name] += n

    def state(self, space, key):
        self.states[space].add(key)

    def sample(self, **kw):
        if len(self.samples) < 2:
            self.samples.append(kw)

    # ---- observations
    def _violate(self, mon, detail, key=None):
        self.viol.append({"monitor": mon, "key": key or mon, "detail": jsonable(detail)})

    def check(self, cond, mon, /, key=None, **detail):
        self.counts[mon] += 1
        ok = bool(cond)
        if not ok:
            self._violate(mon, detail, key)
        return ok

    def close(self, got, want, mon, /, rtol=1e-9, atol=0.0, key=None, equal_nan=False, **detail):
        """Element-wise agreement, shapes included; -inf/inf must match exactly."""
        self.counts[mon] += 1
        try:
            g = np.asarray(got, dtype=float)
            w = np.asarray(want, dtype=float)
        except (TypeError, ValueError) as e:
            self._violate(mon, dict(detail, got=got, want=want, why=repr(e)), key)
            return False
        if g.shape != w.shape:
            self._violate(mon, dict(detail, got=g, want=w, why="shape %s vs %s" % (g.shape, w.shape)), key)
            return False
        with np.errstate(all="ignore"):
            ok = np.isclose(g, w, rtol=rtol, atol=atol, equal_nan=equal_nan)
        if not ok.all():
            idx = np.argwhere(~ok)[0]
            self._violate(mon, dict(detail, got=g, want=w, first_bad=[int(v) for v in idx],
                                    got_bad=g[tuple(idx)], want_bad=w[tuple(idx)], nbad=int((~ok).sum())), key)
            return False
        return True

    def same(self, got, want, mon, /, key=None, **detail):
        """Exact equality of plain Python/numpy values."""
        self.counts[mon] += 1
        try:
            ok = np.array_equal(got, want) if isinstance(got, np.ndarray) or isinstance(want, np.ndarray) \
                else bool(got == want)
        except Exception:
            ok = False
        if not ok:
            self._violate(mon, dict(detail, got=got, want=want), key)
        return ok

    def call(self, fn, *a, **k):
        """Call code under test: an exception is a violation of the property (Cut ends the case)."""
        mon = k.pop("_mon", "returns-normally")
        key = k.pop("_key", None)
        steps = k.pop("_steps", None)
        self.counts[mon] += 1
        try:
            if steps and self.lines:
                with self.lines.steps(steps):
                    return fn(*a, **k)
            return fn(*a, **k)
        except StepBudgetExceeded as e:
            self._violate("does-not-return", {"where": str(e), "call": getattr(fn, "__name__", repr(fn))}, key)
            raise Cut(key)
        except (Cut, Skip):
            raise
        except SystemExit as e:
            self._violate(mon, {"exception": repr(e), "call": getattr(fn, "__name__", repr(fn))}, key)
            raise Cut(key)
        except Exception as e:
            self._violate(mon, {"exception": repr(e)[:500], "call": getattr(fn, "__name__", repr(fn)),
                                "traceback": traceback.format_exc()[-2500:]}, key)
            raise Cut(key)

    def raises(self, fn, *a, **k):
        """Code under test must refuse: any Exception counts (SystemExit too)."""
        mon = k.pop("_mon", "refuses")
        exc = k.pop("_exc", (Exception, SystemExit))
        detail = k.pop("_detail", {})
        key = k.pop("_key", None)
        self.counts[mon] += 1
        try:
            r = fn(*a, **k)
        except exc:
            return True
        self._violate(mon, dict(detail, returned=r), key)
        return False


class Cut(Exception):
    def __init__(self, key=None):
        self.key = key


class Skip(Exception):
    pass
