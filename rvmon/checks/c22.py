"""C22: the compiled solver under AddressSanitizer + UndefinedBehaviorSanitizer (and clang's UBSan in C), hostile inputs."""
import json, os, subprocess, sys
import numpy as np
from .. import ext, core

ANCHORS = ["kepler.py"]
JOBS = 8
RULE = ("Arrays of every layout numpy can hand over (empty, strided, reversed, unaligned columns of packed records, stride 0, read-only, subclasses, "
        "memory maps, up to 3e6 elements, lengths around 2^31 and 2^32 under a memory limit) with element values drawn from all float64 bit patterns, special values "
        "and ordinary ranges; wrong types; repeated and concurrent calls. The workload runs in a process whose extension is compiled from /repo/src with "
        "-fsanitize=address,undefined,float-cast-overflow; C code alone is also run under clang's sanitizers over 1e6+ bit patterns.")
ASSUMPTIONS = ["an infinite period is allowed its finite limit (constant velocity)",
               "only the extension and its C code are instrumented, not CPython or numpy",
               "lengths beyond 2^31 may end in MemoryError but not in an answer of another length"]
CASE_CPU_LIMIT = 600.0
REQUIRED = ["sanitizer-clean", "elementwise", "input-unchanged", "one-velocity-per-time", "no-reference-kept", "nonfinite-element-gives-nonfinite",
            "nonfinite-time-gives-nonfinite", "huge-length-not-truncated", "no-memory-leaked", "c-sanitizer-clean", "package-input-unchanged",
            "finite-orbit-gives-finite", "solver-answer-is-a-root", "solver-finite-gives-finite", "wrong-array-refused", "concurrent-calls-independent"]
SAN = {}

C_DRIVER = r'''
#define main little_test_main
#include "kepler.c"
#undef main
#include <stdint.h>
#include <string.h>
static uint64_t s[2];
static uint64_t nxt(void){uint64_t a=s[0],b=s[1];s[0]=b;a^=a<<23;s[1]=a^b^(a>>17)^(b>>26);return s[1]+b;}
static double d(int mode){
  uint64_t x=nxt();double v;
  if(mode==0){memcpy(&v,&x,8);return v;}
  if(mode==1){static const double sp[]={0.,-0.,INFINITY,-INFINITY,NAN,5e-324,-5e-324,1e308,-1e308,1.,-1.,0.99,2.,M_PI,2*M_PI,-M_PI,2147483647.,2147483648.,-2147483649.,9.3e18,1e16,1e-17};return sp[x%22];}
  v=(double)(x>>11)/9007199254740992.0;
  if(mode==2)return v; if(mode==3)return (v-.5)*2e4; return ldexp(v-.5,(int)(nxt()%2000)-1000);
}
int main(int argc,char**argv){
  uint64_t seed=strtoull(argv[1],0,10);long n=atol(argv[2]);s[0]=seed*0x9E3779B97F4A7C15ull+1;s[1]=seed^0xD1B54A32D192ED03ull;
  for(int j=0;j<20;j++)nxt();
  long nonfin=0,fin=0,bad=0,badroot=0,miss=0;
  for(long i=0;i<n;i++){
    double M=d(nxt()%5),e=d(nxt()%5);
    if(i%2){e=d(2)*.99;}
    double E=kepler(M,e);
    if(isfinite(E)){fin++; if(!isfinite(M)||!isfinite(e))bad++; else if(fabs(E-e*sin(E)-M)>2e-12+1e-14*(fabs(M)+fabs(E)))badroot++;}
    else {nonfin++; if(isfinite(M)&&fabs(M)<1e15&&e>=0&&e<=.99)miss++;}
    double t=d(nxt()%5),per=d(nxt()%5),tp=d(nxt()%5),om=d(nxt()%5),k=d(nxt()%5);
    double r=rv_drive(t,per,tp,e,cos(om),sin(om),k);
    if(isfinite(r)&&(!isfinite(t)&&!isinf(per))) bad++;
    if(isfinite(r)&&(isnan(per)||!isfinite(tp)||!isfinite(e)||!isfinite(om)||!isfinite(k))) bad++;
  }
  printf("{\"n\":%ld,\"finite\":%ld,\"nonfinite\":%ld,\"bad\":%ld,\"badroot\":%ld,\"miss\":%ld}\n",n,fin,nonfin,bad,badroot,miss);
  return 0;
}
'''


def prepare(args, scratch):
    SAN["so"] = ext.build(os.path.join(scratch, "asan"), cflags=["-O1", "-fsanitize=address,undefined,float-cast-overflow",
                                                                  "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"])
    libs = [subprocess.run(["gcc", "-print-file-name=" + x], stdout=subprocess.PIPE, text=True).stdout.strip() for x in ("libasan.so", "libubsan.so")]
    SAN["preload"] = " ".join(libs)
    src = os.path.join(scratch, "cdrv")
    os.makedirs(src)
    with open(os.path.join(src, "driver.c"), "w") as f:
        f.write(C_DRIVER)
    SAN["bin"] = []
    for cc, flags in (("clang", ["-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize-recover=all"]),
                      ("clang", ["-fsanitize=memory", "-fno-sanitize-recover=all"]), ("gcc", ["-O3"])):
        out = os.path.join(src, "drv%d" % len(SAN["bin"]))
        p = subprocess.run([cc, "-g", "-O1", *flags, "-w", "-I" + ext.REPO + "/src", "driver.c", "-o", out, "-lm"], cwd=src, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            raise RuntimeError("building the C driver failed: " + p.stdout[-2000:])
        SAN["bin"].append(out)


def child(m, kind, i, cases, sanitize=True):
    path = os.path.join(m.scratch, "obs-%s-%d.jsonl" % (kind, i))
    env = dict(os.environ, RVMON_REPO=core.REPO, PYTHONPATH=core.VERIF_ROOT)
    if sanitize:
        env.update(LD_PRELOAD=SAN["preload"], PYTHONMALLOC="malloc",
                   ASAN_OPTIONS="detect_leaks=0:exitcode=97:allocator_may_return_null=1:detect_stack_use_after_return=1",
                   UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1:exitcode=96")
    so = SAN["so"] if sanitize else m.so
    p = subprocess.run([sys.executable, "-m", "rvmon.c22_child", so, kind, str(m.seed), str(i), str(cases), path], cwd=m.scratch, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=1500)
    done, last = False, None
    for line in open(path) if os.path.exists(path) else []:
        r = json.loads(line)
        if r.get("done"):
            done = True
            continue
        last = r
        m.state("layout x mode", (r["layout"], r["mode"]))
        m.event("workload-cases")
        m.event("array-elements", r["n"] if r["n"] < 1e8 else 0)
        for mon, ok in r["obs"].items():
            m.check(ok, mon, **{a: b for a, b in r.items() if a != "obs"})
    text = p.stdout
    clean = "runtime error" not in text and "AddressSanitizer" not in text
    if sanitize:
        m.check(clean, "sanitizer-clean", report=text[:1800], after=last)
    if p.returncode < 0 or not clean:
        m.check(p.returncode >= 0 and clean, "process-survives", exit=p.returncode, output=text[-800:], after=last)
    elif p.returncode or not done:
        tb = text[-1500:]
        # an exception from the extension on an input it must take
        if "_kepler" in tb:
            m.check(False, "returns-normally", output=tb, after=last)
        else:
            raise core.HarnessError("child failed: " + tb)
    m.sample(last=last)
    m.describe(kind=kind, index=i, cases=cases, sanitized=sanitize, observed=last)


def u_raw(m, rng, i):
    child(m, "raw", i, 300 if m.quick else 3000)


def u_plain(m, rng, i):
    child(m, "raw", 1000 + i, 1500 if m.quick else 15000, sanitize=False)


def u_package(m, rng, i):
    child(m, "package", i, 150 if m.quick else 1200)


def u_refusals(m, rng, i):
    child(m, "refusals", i, 1, sanitize=bool(i % 2 == 0))


def u_leaks(m, rng, i):
    child(m, "leaks", i, 1, sanitize=False)


def u_lengths(m, rng, i):
    child(m, "lengths", i, 1, sanitize=False)


def u_threads(m, rng, i):
    child(m, "threads", i, 1, sanitize=bool(i % 2 == 0))


def u_c(m, rng, i):
    n = 400000 if m.quick else 6000000
    b = SAN["bin"][i % len(SAN["bin"])]
    p = subprocess.run([b, str(m.seed * 1000 + i), str(n)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace",
                       env=dict(os.environ, UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1"))
    m.describe(binary=os.path.basename(b), seed=i, n=n)
    m.check(p.returncode == 0, "c-sanitizer-clean", exit=p.returncode, report=p.stderr[:1800])
    if p.returncode == 0:
        r = json.loads(p.stdout)
        m.event("c-evaluations", r["n"])
        m.event("c-finite", r["finite"]); m.event("c-nonfinite", r["nonfinite"])
        m.check(r["bad"] == 0, "c-nonfinite-gives-nonfinite", **r)
        m.check(r["badroot"] == 0, "c-answer-is-a-root", **r)
        m.check(r["miss"] == 0, "c-answers-ellipses", **r)
        m.sample(**r)


UNITS = [("raw", u_raw, 12, 48), ("plain", u_plain, 4, 16), ("package", u_package, 4, 24), ("refusals", u_refusals, 2, 4), ("leaks", u_leaks, 1, 2),
         ("lengths", u_lengths, 1, 1), ("threads", u_threads, 2, 4), ("c", u_c, 6, 24)]
