"""Supervisor: builds the extension, imports the code under test, forks shard workers, watches them, and decides."""
import argparse, collections, importlib, json, os, shutil, signal, sys, tempfile, time, traceback, warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("RVMON_REPO", "/repo")
FRESH_EXT = ("C01", "C22")       # checks of the extension itself never rely on the in-tree build
TICK = os.sysconf("SC_CLK_TCK")


def import_radvel(so):
    import importlib.machinery, importlib.util
    class Finder:
        @staticmethod
        def find_spec(name, path=None, target=None):
            if name == "radvel._kepler":
                loader = importlib.machinery.ExtensionFileLoader(name, so)
                return importlib.util.spec_from_file_location(name, so, loader=loader)
            return None
    sys.meta_path.insert(0, Finder)
    sys.path.insert(0, REPO)
    warnings.simplefilter("ignore")
    import radvel
    here = os.path.dirname(os.path.realpath(radvel.__file__))
    if here != os.path.join(os.path.realpath(REPO), "radvel"):
        raise RuntimeError("imported radvel from %s" % here)
    import radvel._kepler as k
    if os.path.realpath(k.__file__) != os.path.realpath(so):
        raise RuntimeError("extension loaded from %s" % k.__file__)
    import radvel.driver, radvel.cli, radvel.plot.orbit_plots, radvel.plot.mcmc_plots, radvel.basis, radvel.gp
    warnings.simplefilter("ignore")
    return radvel


def known_findings(pid):
    out = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.isfile(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding: ") and ("property=%s " % pid) in line:
                key = [w[4:] for w in line.split() if w.startswith("key=")][0]
                out[key] = line.split("key=" + key, 1)[1].strip()
    return out


def cpu_of(pid):
    try:
        with open("/proc/%d/stat" % pid) as f:
            s = f.read()
        v = s[s.rindex(")") + 2:].split()
        return (int(v[11]) + int(v[12])) / TICK
    except (OSError, ValueError, IndexError):
        return 0.0


class Shard:
    def __init__(self, n, work, scratch):
        self.n, self.work, self.scratch = n, work, scratch
        self.pos = 0              # next work item to start
        self.path = os.path.join(scratch, "shard%d.jsonl" % n)
        open(self.path, "w").close()
        self.off = 0
        self.buf = b""
        self.current = None
        self.cpu0 = 0.0
        self.pid = None
        self.done = False
        self.deaths = 0


def worker(shard, mod, args, so):
    """Runs in a forked child."""
    from rvmon import core
    fd = os.open(shard.path, os.O_WRONLY | os.O_APPEND)
    def sink(rec):
        os.write(fd, (json.dumps(rec) + "\n").encode())
    cwd = os.path.join(shard.scratch, "cwd%d" % shard.n)
    os.makedirs(cwd, exist_ok=True)
    os.chdir(cwd)
    out = os.open(os.path.join(shard.scratch, "out%d.txt" % shard.n), os.O_WRONLY | os.O_CREAT | os.O_APPEND)
    if not args.replay:
        os.dup2(out, 1); os.dup2(out, 2)
    lines = core.Lines()
    m = core.Mon(args.property, args.tier, args.seed, sink, lines)
    m.so = so
    m.scratch = cwd
    units = {u[0]: u[1] for u in mod.UNITS}
    sent = {}
    def cov(force=False):
        sink({"t": "cov", "cov": {f: sorted(v - sent.get(f, set())) for f, v in lines.seen.items()}})
        for f, v in lines.seen.items():
            sent[f] = set(v)
    for j, (uname, i) in enumerate(shard.work[shard.pos:]):
        m.run_case(uname, units[uname], i)
        if j % 20 == 0:
            cov()
    cov()
    sink({"t": "done"})
    sys.stdout.flush()
    os._exit(0)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("tier", nargs="?", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    ap.add_argument("--unit")
    ap.add_argument("--index", type=int)
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("RVMON_JOBS", "8")))
    ap.add_argument("--verbose", action="store_true")
    args = ap.parse_args()
    if args.replay:
        r = json.load(open(args.replay))
        args.tier, args.seed, args.unit, args.index = r["tier"], r["seed"], r["unit"], r["i"]
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="rvmon-%s-" % args.property, dir=os.environ.get("RVMON_TMP", "/tmp"))
    try:
        rc = supervise(args, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)


def supervise(args, scratch, t0):
    from rvmon import ext
    os.environ.setdefault("MPLCONFIGDIR", os.path.join(os.path.expanduser("~"), ".cache", "matplotlib"))
    so, how = ext.provide(scratch, fresh=args.property in FRESH_EXT)
    import_radvel(so)
    mod = importlib.import_module("rvmon.checks." + args.property.lower())
    if hasattr(mod, "prepare"):
        mod.prepare(args, scratch)
    work = []
    tier_idx = 2 if args.tier == "quick" else 3
    for u in mod.UNITS:
        n = u[tier_idx]
        for i in range(n):
            if args.unit and u[0] != args.unit:
                continue
            if args.index is not None and i != args.index:
                continue
            work.append((u[0], i))
    # spread the units over the shards, deterministic
    work.sort(key=lambda w: (w[1], w[0]))
    if hasattr(mod, "ORDER"):
        prio = {u: k for k, u in enumerate(mod.ORDER)}
        work.sort(key=lambda w: prio.get(w[0], 99))
    nj = max(1, min(args.jobs, getattr(mod, "JOBS", 8), len(work)))
    shards = [Shard(k, work[k::nj], scratch) for k in range(nj)]
    cpu_limit = getattr(mod, "CASE_CPU_LIMIT", 120.0)
    wall_limit = float(os.environ.get("RVMON_WALL", 800 if args.tier == "quick" else 14400))

    agg = {"counts": collections.Counter(), "events": collections.Counter(), "states": collections.defaultdict(set),
           "sigs": set(), "cases": collections.Counter(), "viol": [], "errs": [], "samples": [], "cov":
           collections.defaultdict(set), "nontrivial": 0, "inconclusive": []}
    sample_units = set()

    def start(s):
        sys.stdout.flush(); sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            rc = 3
            try:
                os.setpgid(0, 0)
                worker(s, mod, args, so)
            except BaseException:
                try:
                    with open(s.path, "a") as f:
                        f.write(json.dumps({"t": "fatal", "err": traceback.format_exc()[-3000:]}) + "\n")
                finally:
                    os._exit(rc)
            os._exit(rc)
        s.pid = pid
        s.current = None
        s.cpu0 = 0.0

    def absorb(s):
        with open(s.path, "rb") as f:
            f.seek(s.off)
            data = f.read()
        s.off += len(data)
        s.buf += data
        *lines, s.buf = s.buf.split(b"\n")
        for ln in lines:
            r = json.loads(ln)
            if r["t"] == "begin":
                s.current = (r["unit"], r["i"])
                s.cpu0 = cpu_of(s.pid)
            elif r["t"] == "end":
                s.pos += 1
                s.current = None
                agg["cases"][r["unit"]] += 1
                agg["counts"].update(r["counts"])
                agg["events"].update(r["events"])
                for k, v in r["states"].items():
                    agg["states"][k].update(v)
                if sum(r["counts"].values()):
                    agg["sigs"].add(r["sig"])
                for v in r["viol"]:
                    agg["viol"].append(dict(v, unit=r["unit"], i=r["i"], desc=r["desc"], n=r["nviol"]))
                for e in r["errs"]:
                    agg["errs"].append("%s/%s: %s" % (r["unit"], r["i"], e))
                if r["unit"] not in sample_units and len(agg["samples"]) < 12 and (r["desc"] or r["samples"]):
                    sample_units.add(r["unit"])
                    agg["samples"].append({"unit": r["unit"], "i": r["i"], "case": r["desc"], "observed": r["samples"],
                                           "observations": r["counts"]})
            elif r["t"] == "cov":
                for f, v in r["cov"].items():
                    agg["cov"][f].update(v)
            elif r["t"] == "done":
                s.done = True
            elif r["t"] == "fatal":
                agg["errs"].append("shard: " + r["err"])

    def kill(s):
        try:
            os.killpg(s.pid, signal.SIGKILL)
        except OSError:
            pass

    for s in shards:
        start(s)
    live = set(shards)
    last_cpu = {}
    while live:
        time.sleep(0.05)
        for s in list(live):
            absorb(s)
            pid, status = os.waitpid(s.pid, os.WNOHANG)
            if pid == 0:
                if s.current is not None:
                    used = cpu_of(s.pid) - s.cpu0
                    if used > cpu_limit:
                        unit, i = s.current
                        kill(s); os.waitpid(s.pid, 0)
                        absorb(s)
                        agg["viol"].append({"monitor": "does-not-return", "key": "does-not-return", "unit": unit, "i": i,
                                            "desc": {}, "n": 1, "detail": {"cpu_s": used, "limit": cpu_limit}})
                        s.pos += 1
                        s.deaths += 1
                        if s.deaths < 4 and s.pos < len(s.work):
                            start(s)
                        else:
                            live.discard(s)
                if time.time() - t0 > wall_limit:
                    kill(s); os.waitpid(s.pid, 0)
                    agg["inconclusive"].append("wall-clock limit of %ds reached in shard %d at %s" % (wall_limit, s.n, s.current))
                    live.discard(s)
                continue
            absorb(s)
            if s.done:
                live.discard(s)
                continue
            rc = os.waitstatus_to_exitcode(status)
            if s.current is None:
                agg["errs"].append("shard %d ended with %s between cases" % (s.n, rc))
                live.discard(s)
                continue
            unit, i = s.current
            if rc == 3 or rc == -signal.SIGKILL:
                agg["errs"].append("shard %d ended with %s in %s/%d" % (s.n, rc, unit, i))
            else:
                tail = ""
                try:
                    tail = open(os.path.join(scratch, "out%d.txt" % s.n), errors="replace").read()[-600:]
                except OSError:
                    pass
                agg["viol"].append({"monitor": "process-survives", "key": "process-survives", "unit": unit, "i": i,
                                    "desc": {}, "n": 1, "detail": {"exit_status": rc, "output_tail": tail}})
            kill(s)
            s.pos += 1
            s.deaths += 1
            if s.deaths < 6 and s.pos < len(s.work):
                start(s)
            else:
                live.discard(s)
    if hasattr(mod, "finish"):
        mod.finish(args, agg)
    return decide(args, mod, agg, how, t0)


def executable_lines(f):
    import dis
    try:
        src = open(os.path.join(REPO, "radvel", f)).read()
        co = compile(src, f, "exec")
    except Exception:
        return set()
    out, todo = set(), [co]
    while todo:
        c = todo.pop()
        if c is not co:
            out.update(l for _, _, l in c.co_lines() if l)
        todo += [k for k in c.co_consts if hasattr(k, "co_lines")]
    return out


def decide(args, mod, agg, how, t0):
    pid = args.property
    known = known_findings(pid)
    seen_known, fresh = collections.OrderedDict(), collections.OrderedDict()
    for v in agg["viol"]:
        if v["key"] in known:
            seen_known.setdefault(v["key"], v)
        else:
            fresh.setdefault((v["monitor"], v["key"], v["unit"]), []).append(v)
    nviol = sum(len(v) for v in fresh.values())
    replay_dir = os.path.join(VERIF, "replays")
    for key, text in known.items():
        if key in seen_known:
            print("KNOWN-FINDING: property=%s %s" % (pid, text))
        elif not args.unit:
            print("note: listed finding %s of %s was not observed in this run" % (key, pid))
    shown = 0
    for (monitor, key, unit), vs in fresh.items():
        v = vs[0]
        os.makedirs(replay_dir, exist_ok=True)
        path = os.path.join(replay_dir, "%s-%s-s%d-%s-%d.json" % (pid, args.tier, args.seed, v["unit"], v["i"]))
        with open(path, "w") as f:
            json.dump({"property": pid, "tier": args.tier, "seed": args.seed, "unit": v["unit"], "i": v["i"],
                       "violations": [x for x in agg["viol"] if x["unit"] == v["unit"] and x["i"] == v["i"]],
                       "replay_cmd": "./run.sh %s --replay %s" % (pid, path)}, f, indent=1)
        if shown < 40:
            print("VIOLATION property=%s replay=%s" % (pid, path))
            print("  monitor=%s unit=%s occurrences=%d detail=%s" % (monitor, unit, len(vs), json.dumps(v["detail"])[:1500]))
        shown += 1
    # required monitors: a run in which one of them saw nothing decides nothing
    silent = [] if args.unit else [n for n in getattr(mod, "REQUIRED", []) if agg["counts"].get(n, 0) == 0]
    cov = {}
    for f in getattr(mod, "ANCHORS", []):
        ex = executable_lines(f)
        cov[f] = {"lines_observed": len(agg["cov"].get(f, set()) & ex), "lines": len(ex)}
        if os.environ.get("RVMON_SHOWCOV"):
            cov[f]["missed"] = sorted(ex - agg["cov"].get(f, set()))
    ev = {"property": pid, "tier": args.tier, "seed": args.seed, "level": "exploration",
          "coverage": {"evaluations": sum(agg["cases"].values()), "distinct_nontrivial": len(agg["sigs"]),
                       "rule": getattr(mod, "RULE", "").strip() + " A case counts as distinct and non-trivial if its "
                               "generated inputs differ from every other case's and at least one monitor observed it.",
                       "samples": agg["samples"], "cases_per_unit": dict(sorted(agg["cases"].items())),
                       "observations_per_monitor": dict(sorted(agg["counts"].items())),
                       "observations_total": sum(agg["counts"].values()),
                       "events": dict(sorted(agg["events"].items())),
                       "distinct_states": {k: len(v) for k, v in sorted(agg["states"].items())},
                       "source_lines_observed": cov, "extension": how,
                       "known_findings_seen": list(seen_known), "monitors_that_saw_nothing": silent,
                       "harness_errors": len(agg["errs"]), "inconclusive": agg["inconclusive"]},
          "assumptions": getattr(mod, "ASSUMPTIONS", []),
          "wall_s": round(time.time() - t0, 2), "violations": nviol}
    if not args.unit:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    print("%s %s seed=%d: %d cases, %d observations by %d monitors, %d violations, %.1fs" % (
        pid, args.tier, args.seed, sum(agg["cases"].values()), sum(agg["counts"].values()), len(agg["counts"]), nviol,
        time.time() - t0))
    if args.verbose:
        print(json.dumps(ev["coverage"], indent=1))
    if nviol:
        return 1
    bad = False
    for e in agg["errs"][:6]:
        print("HARNESS-ERROR " + e)
        bad = True
    for e in agg["inconclusive"]:
        print("INCONCLUSIVE " + e)
        bad = True
    if silent:
        print("INCONCLUSIVE monitors saw nothing: %s" % silent)
        bad = True
    return 2 if bad else 0


if __name__ == "__main__":
    main()
