"""Plumbing shared by the checks: building, running TLC and drivers, reporting."""
import re, os, sys, json, subprocess, time, random, shutil, tempfile, signal, concurrent.futures as cf

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
HARN = os.path.join(VERIF, "harness")
SPEC = os.path.join(VERIF, "spec")
NCPU = 8
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"

class CheckError(Exception):
    pass

class Work:
    """scratch directory of one check run, removed at the end"""
    def __init__(self, pid):
        self.dir = tempfile.mkdtemp(prefix="vf_%s_" % pid, dir=os.environ.get("VF_TMP", "/tmp"))
    def path(self, *a):
        p = os.path.join(self.dir, *a)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        return p
    def done(self):
        if not os.environ.get("VF_KEEP"): shutil.rmtree(self.dir, ignore_errors=True)

def run(cmd, timeout=600, env=None, cwd=None, inp=None, limit_mb=None):
    e = dict(os.environ)
    e.update(env or {})
    pre = None
    if limit_mb:
        import resource
        def pre(): resource.setrlimit(resource.RLIMIT_AS, (limit_mb << 20, limit_mb << 20))
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.PIPE if inp is not None else subprocess.DEVNULL,
                         env=e, cwd=cwd, start_new_session=True, preexec_fn=pre)
    try:
        out, err = p.communicate(inp, timeout=timeout)
        return p.returncode, out.decode("latin-1"), err.decode("latin-1")
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, err = p.communicate()
        return -99, out.decode("latin-1"), err.decode("latin-1")

def build_lib(work, variant="asan"):
    out = work.path("lib_" + variant, "x")
    out = os.path.dirname(out)
    rc, so, se = run(["make", "-s", "-j%d" % NCPU, "-f", os.path.join(HARN, "lib.mk"), "OUT=" + out, "VARIANT=" + variant, "REPO=" + REPO], timeout=600)
    if rc != 0: raise CheckError("library build failed (%s)\n%s\n%s" % (variant, so[-3000:], se[-3000:]))
    return out

SAN = {"asan": ["-O1", "-fsanitize=address"], "plain": ["-O2"], "sched": ["-O1"]}
def build_driver(work, lib, name, variant="asan", inc=(), extra=()):
    exe = work.path("%s_%s" % (name, variant))
    cmd = ["gcc", "-std=gnu11", "-g", "-w", "-DHAVE_CONFIG_H"] + SAN[variant] + ["-I" + lib] + ["-I" + i for i in inc] + \
          ["-I" + os.path.join(HARN, "include"), "-I" + HARN, "-I" + os.path.join(REPO, "src"), "-I/usr/include/tirpc", "-I/usr/include/libxml2",
           os.path.join(HARN, name + ".c"), "-o", exe, os.path.join(lib, "libmr.a"), "-ltirpc", "-lxml2", "-lyaml", "-ldl", "-lm", "-lpthread"] + list(extra)
    rc, so, se = run(cmd, timeout=600)
    if rc != 0: raise CheckError("driver %s build failed\n%s" % (name, "\n".join(re.findall(r"[^\n]*(?:error:|undefined reference)[^\n]*", se)[:12]) or se[-3000:]))
    return exe

def build_driver_as(work, lib, name, exe, extra):
    """like build_driver, together with generated sources"""
    cmd = ["gcc", "-std=gnu11", "-g0", "-O0", "-w", "-fsanitize=address", "-DHAVE_CONFIG_H", "-I" + lib, "-I" + os.path.join(HARN, "include"), "-I" + HARN, "-I" + os.path.join(REPO, "src"), "-I/usr/include/tirpc", "-I/usr/include/libxml2"] + \
          list(extra) + [os.path.join(HARN, name + ".c"), "-o", exe, os.path.join(lib, "libmr.a"), "-ltirpc", "-lxml2", "-lyaml", "-ldl", "-lm", "-lpthread"]
    rc, so, se = run(cmd, timeout=600)
    if rc != 0: raise CheckError("driver %s build failed\n%s" % (name, "\n".join(re.findall(r"[^\n]*error:[^\n]*\n[^\n]*", se)[:5])))
    return exe

DRV_ENV = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:detect_stack_use_after_return=0",
           "TSAN_OPTIONS": "exitcode=66:halt_on_error=0", "LC_ALL": "C"}

JAR = "/opt/veriftools/tla/tla2tools.jar"
def tlc(module, cfg, meta, env=None, args=(), workers=1, timeout=800, mem="2g", fresh_cfg=None):
    """runs TLC on spec/<module>.tla; returns (rc, output)"""
    os.makedirs(meta, exist_ok=True)
    cfgp = os.path.join(meta, module + ".cfg")
    open(cfgp, "w").write(cfg)
    e = {"JAVA_TOOL_OPTIONS": "-Xss64m -Xmx%s -XX:+UseParallelGC -XX:ParallelGCThreads=2 -Djava.io.tmpdir=%s" % (mem, meta)}
    e.update(env or {})
    cmd = ["tlc", "-config", cfgp, "-metadir", os.path.join(meta, "states"), "-workers", str(workers), "-noGenerateSpecTE"] + list(args) + [os.path.join(SPEC, module + ".tla")]
    rc, so, se = run(cmd, timeout=timeout, env=e, cwd=meta)
    return rc, so + se


def tlc_stats(out):
    m = re.findall(r"([\d,]+) states generated(?: \([^)]*\))?, ([\d,]+) distinct states found", out)
    if m:
        a, b = m[-1]
        return int(a.replace(",", "")), int(b.replace(",", ""))
    m = re.findall(r"The number of states generated: ([\d,]+)", out)
    if m: return int(m[-1].replace(",", "")), int(m[-1].replace(",", ""))
    return 0, 0

def parallel(fn, items, n=NCPU):
    with cf.ThreadPoolExecutor(n) as ex:
        return list(ex.map(fn, items))

def evidence(pid, level, coverage, t0, violations, assumptions=()):
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    json.dump({"property": pid, "tier": TIER, "seed": SEED, "level": level, "coverage": coverage, "assumptions": list(assumptions),
               "wall_s": round(time.time() - t0, 1), "violations": violations}, open(os.path.join(d, pid + ".json"), "w"), indent=1)

def known(pid):
    """known findings of a property: list of (key, text)"""
    r = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", l.strip())
            if m and m.group(1) == pid: r.append((m.group(2), m.group(3)))
    return r

def save_replay(pid, name, text):
    d = os.path.join(VERIF, "build", "replay")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "%s_%s" % (pid, name))
    open(p, "w").write(text)
    return p
