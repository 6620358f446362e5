"""Builds radvel's C extension out of tree from /repo's current sources, so that a check always sees the code
as it is now (the .so lying in /repo/radvel may be stale: build.sh is not run before a check)."""
import glob, hashlib, os, shutil, subprocess, sys, sysconfig

REPO = os.environ.get("RVMON_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def _sources():
    fs = [f for f in glob.glob(REPO + "/src/**/*", recursive=True)
          if os.path.isfile(f) and os.path.basename(f) != "_kepler.c"]
    return sorted(fs)


def source_digest(extra=""):
    h = hashlib.sha256(extra.encode())
    for f in _sources():
        h.update(os.path.relpath(f, REPO).encode() + b"\0")
        with open(f, "rb") as fh:
            h.update(fh.read())
        h.update(b"\0")
    return h.hexdigest()


def _stamped():
    """Path of the in-tree .so if /repo/build's content stamp proves that it was built from these sources."""
    sos = glob.glob(REPO + "/radvel/_kepler*.so")
    stamp = REPO + "/build/vp-ext.sha256"
    if len(sos) != 1 or not os.path.isfile(stamp):
        return None
    files = _sources() + [f for f in (REPO + "/setup.py", REPO + "/pyproject.toml") if os.path.isfile(f)] + sos
    lines = []
    for f in sorted(os.path.relpath(f, REPO) for f in files):
        with open(os.path.join(REPO, f), "rb") as fh:
            lines.append("%s  %s" % (hashlib.sha256(fh.read()).hexdigest(), f))
    with open(stamp) as fh:
        return sos[0] if sorted(fh.read().split("\n")) == sorted(lines + [""]) else None


def build(dest, cflags=(), ldflags=(), name="_kepler", cc="gcc"):
    """Compile src/_kepler.pyx (which includes kepler.c textually) into dest; returns the .so path."""
    os.makedirs(dest, exist_ok=True)
    src = os.path.join(dest, "src")
    shutil.copytree(REPO + "/src", src, ignore=shutil.ignore_patterns("_kepler.c"))
    import numpy
    def run(cmd):
        p = subprocess.run(cmd, cwd=src, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            raise RuntimeError("building the extension failed: %s\n%s" % (" ".join(cmd), p.stdout[-3000:]))
    run([sys.executable, "-m", "cython", "-3", "_kepler.pyx", "-o", "_kepler_gen.c"]
        if False else [sys.executable, "-m", "cython", "_kepler.pyx", "-o", "_kepler_gen.c"])
    so = os.path.join(dest, name + sysconfig.get_config_var("EXT_SUFFIX"))
    run([cc, "-shared", "-fPIC", "-O2", "-g", "-fwrapv", "-I" + numpy.get_include(),
         "-I" + sysconfig.get_paths()["include"], "-I" + src, "-w", *cflags, "_kepler_gen.c", "-o", so, "-lm", *ldflags])
    return so


def provide(scratch, fresh=False):
    """The .so to test: freshly compiled, or (fresh=False) one that a content stamp proves to be current."""
    if not fresh:
        so = _stamped()
        if so:
            return so, "in-tree build, content stamp verified"
    cache = os.path.join(VERIF, ".cache")
    try:
        os.makedirs(cache, exist_ok=True)
    except OSError:
        cache = None
    if cache:
        so = os.path.join(cache, "ext-" + source_digest() + ".so")
        if os.path.isfile(so):
            return so, "own build from these sources (cached by content)"
    built = build(os.path.join(scratch, "ext"))
    if cache:
        try:
            tmp = so + ".%d" % os.getpid()
            shutil.copy(built, tmp)
            os.replace(tmp, so)
        except OSError:
            pass
    return built, "own build from these sources"
