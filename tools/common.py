"""Shared machinery of the checks: building the library, running TLC, running
drivers, known findings, evidence, verdicts."""
import json, os, sys, subprocess, shutil, tempfile, time, atexit, re, hashlib, threading, concurrent.futures as cf

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
UCD = os.path.join(VERIF, "ucd")
HARN = os.path.join(VERIF, "harness")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"
NCPU = max(1, min(8, os.cpu_count() or 1))
DEADLINE = time.time() + (3000 if THOROUGH else 780)

_scratch = None
def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="vgraph.")
        atexit.register(lambda: shutil.rmtree(_scratch, ignore_errors=True))
    return _scratch

class CheckError(Exception):
    """The check itself could not be carried out."""

# ---------------------------------------------------------------- building
FLAVOURS = {
    "plain": ("gcc", "-std=c99 -O2 -g"),
    "asan": ("clang", "-std=c99 -O1 -g -fsanitize=address,undefined -fno-sanitize-recover=all -fno-omit-frame-pointer"),
    "tsan": ("clang", "-std=c99 -O1 -g -fsanitize=thread"),
}
_built = {}
_lock = threading.Lock()
def build(flavour="plain"):
    """Builds libgrapheme.a from /repo's working tree in a scratch copy."""
    with _lock:
        if flavour in _built: return _built[flavour]
        d = os.path.join(scratch(), "build-" + flavour)
        os.makedirs(d)
        def ls(*a):
            r = subprocess.run(["git", "-C", REPO, "-c", "safe.directory=*", "ls-files", "-z"] + list(a), capture_output=True)
            if r.returncode != 0: raise CheckError("git ls-files: " + r.stderr.decode()[:300])
            return [x for x in r.stdout.decode().split("\0") if x]
        # tracked files, plus untracked sources; never generated tables or objects
        for f in ls("-c") + [x for x in ls("-o", "--exclude-standard")
                             if x.endswith((".c", ".h")) and not re.match(r"_build/|gen/.*\.h$", x)]:
            s = os.path.join(REPO, f)
            if not os.path.isfile(s): continue
            t = os.path.join(d, f)
            os.makedirs(os.path.dirname(t), exist_ok=True)
            shutil.copy2(s, t)
        cc, fl = FLAVOURS[flavour]
        env = dict(os.environ); env.pop("MAKEFLAGS", None); env["ASAN_OPTIONS"] = "detect_leaks=0"
        r = subprocess.run(["make", "-j8", "libgrapheme.a", "CC=" + cc, "CFLAGS=" + fl, "LDFLAGS=",
                            "BUILD_CC=gcc", "BUILD_CFLAGS=-std=c99 -O1", "BUILD_LDFLAGS="],
                           cwd=d, env=env, capture_output=True, text=True)
        if r.returncode != 0 or not os.path.exists(os.path.join(d, "libgrapheme.a")):
            raise CheckError("build of /repo failed:\n" + (r.stdout + r.stderr)[-3000:])
        _built[flavour] = d
        return d

def driver(src, flavour="plain", extra=()):
    d = build(flavour)
    out = os.path.join(d, "drv-" + os.path.basename(src).replace(".c", ""))
    if os.path.exists(out): return out
    cc, fl = FLAVOURS[flavour]
    r = subprocess.run([cc] + fl.replace("-std=c99", "-std=gnu11").split() +
                       ["-D_GNU_SOURCE", "-I", d, "-I", HARN, "-o", out + ".tmp", os.path.join(HARN, src),
                        os.path.join(d, "libgrapheme.a"), "-lpthread"] + list(extra),
                       capture_output=True, text=True)
    if r.returncode != 0: raise CheckError("driver build failed:\n" + r.stderr[-3000:])
    os.rename(out + ".tmp", out)
    return out

# ---------------------------------------------------------------- TLC
class TLCResult:
    def __init__(self, rc, out):
        self.rc, self.out = rc, out
        self.ok = rc == 0 and "Error:" not in out
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
        self.generated, self.distinct = (tuple(int(x.replace(",", "")) for x in m[-1]) if m else (0, 0))
    def value(self, tag):
        """value printed by PrintT(<<tag, value>>)"""
        return re.findall(r'<<"%s", (.*)>>' % tag, self.out)

def tlc(module, cfg, env=None, workers=None, timeout=None, extra=(), heap="6g"):
    """cfg: text of the configuration. env: strings readable through IOEnv."""
    md = tempfile.mkdtemp(prefix="tlc.", dir=scratch())
    cf_ = os.path.join(md, "m.cfg")
    with open(cf_, "w") as f: f.write(cfg)
    e = dict(os.environ); e.update(env or {})
    e["TMPDIR"] = md
    timeout = timeout or max(30, DEADLINE - time.time())
    cmd = ["java", "-Xmx" + heap, "-Xss64m", "-XX:+UseParallelGC", "-Djava.io.tmpdir=" + md, "-cp",
           "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar", "tlc2.TLC",
           "-workers", str(workers or NCPU), "-noGenerateSpecTE", "-metadir", md, "-config", cf_] + list(extra) + [module + ".tla"]
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise CheckError(f"TLC on {module} ran out of time ({timeout:.0f}s)")
    finally:
        shutil.rmtree(md, ignore_errors=True)
    out = "\n".join(l for l in (r.stdout + r.stderr).split("\n")
                    if not re.match(r"(Parsing file|Semantic processing|Linting of)", l))
    return TLCResult(r.returncode, out)

def tlc_long(module, cfg, lots, env=None, extra=()):
    """the same invariants on random texts of up to N symbols (Long.tla): lots per first symbol"""
    return tlc(module, cfg.replace("SPECIFICATION Spec\n", "SPECIFICATION SpecLong\n"), env=dict(env or {}, LOTS=str(lots)), extra=extra)

# ---------------------------------------------------------------- UCD
_ucd = {}
def ucd(name):
    if name not in _ucd:
        with open(os.path.join(UCD, name + ".json")) as f: _ucd[name] = json.load(f)
    return _ucd[name]
NCP = 0x110000
_exp = {}
def expand(name):
    """per-codepoint list of a range table"""
    if name not in _exp:
        t = [None] * NCP
        for a, b, v in ucd(name):
            t[a:b + 1] = [v] * (b - a + 1)
        _exp[name] = t
    return _exp[name]

# ---------------------------------------------------------------- running drivers
class DriverOutput:
    def __init__(self):
        self.fails, self.stats, self.samples = [], {}, []
def run_drivers(cmds, timeout=None, out=None, env=None, cap=200):
    """Runs driver command lines (at most NCPU at a time). A driver prints lines
    FAIL <json>, STAT <name> <n>, SAMPLE <json>."""
    out = out or DriverOutput()
    e = dict(os.environ); e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=99:handle_abort=0"
    e["UBSAN_OPTIONS"] = "print_stacktrace=0"
    e["TSAN_OPTIONS"] = "exitcode=98:halt_on_error=1"
    e.update(env or {})
    def one(c):
        t = timeout or max(20, DEADLINE - time.time())
        try:
            r = subprocess.run(c, capture_output=True, timeout=t, env=e)
            return c, r.returncode, r.stdout.decode("utf-8", "replace"), r.stderr.decode("utf-8", "replace")
        except subprocess.TimeoutExpired as x:
            return c, None, (x.stdout or b"").decode("utf-8", "replace"), (x.stderr or b"").decode("utf-8", "replace")
    with cf.ThreadPoolExecutor(NCPU) as ex:
        err = None
        for c, rc, so, se in ex.map(one, cmds):
            nf = 0; done = False
            for l in so.split("\n"):
                if l.startswith("SAMPLE ") and "FAIL {" in l: l = l[l.index("FAIL {"):]  # the record was being written
                if l.startswith("FAIL "):
                    nf += 1
                    try: f = json.loads(l[5:])
                    except ValueError: f = {"raw": l[5:400]}
                    f["cmd"] = [os.path.basename(c[0])] + [os.path.basename(x) for x in c[1:]]
                    out.fails.append(f)
                elif l.startswith("STAT "):
                    _, k, v = l.split(); out.stats[k] = out.stats.get(k, 0) + int(v)
                elif l.startswith("SAMPLE "):
                    if len(out.samples) < cap: out.samples.append(json.loads(l[7:]))
                elif l == "DONE": done = True
            if rc is None:
                err = err or CheckError("driver did not finish in time: " + " ".join(c)[:300])
            elif not done and nf == 0:
                err = err or CheckError(f"driver died without a verdict rc={rc}: {' '.join(c)[:300]}\n{se[-2000:]}")
            if nf and se: out.fails[-1].setdefault("stderr", se[-1500:])
    if err and not out.fails: raise err     # what was found is not lost
    return out

# ---------------------------------------------------------------- altered records
def altered(recs, alter, n=24):
    """copies of n of the recorded runs with one observation changed by alter(rec, rnd) -> rec or None:
    list of (index of the original, copy). The specification is a function of the arguments, so a
    trace specification that accepts a run and its altered copy does not judge anything."""
    rnd = __import__("random").Random(SEED + 77); out = []
    for i in rnd.sample(range(len(recs)), min(len(recs), 4 * n)):
        c = alter(json.loads(json.dumps(recs[i])), rnd)
        if c is not None and c != recs[i]: out.append((i, c))
        if len(out) == n: break
    return out
def noticed(chk, recs, alt, bad):
    """bad: indices (into recs followed by the altered copies) that were rejected.
    Returns the rejected indices of recs."""
    bad = set(bad)
    for j, (i, c) in enumerate(alt):
        if len(recs) + j not in bad and i not in bad:
            raise CheckError("the trace specification accepts an altered record: " + json.dumps(c)[:600])
    chk.cov["altered_records_rejected"] = chk.cov.get("altered_records_rejected", 0) + len(alt)

# ---------------------------------------------------------------- verdict
class Check:
    def __init__(self, pid, level="model_checking"):
        self.pid, self.level, self.t0 = pid, level, time.time()
        self.states = self.transitions = self.traces = 0
        self.cov, self.samples, self.assumptions, self.fails, self.known_hit = {}, [], [], [], {}
        self.findings = []
        for l in open(os.path.join(VERIF, "known_findings.txt")):
            m = re.match(r"known: property=(\S+) (\{.*\})", l)
            if m and m.group(1) == pid: self.findings.append(json.loads(m.group(2)))
    def log(self, *a):
        print(f"[{self.pid} {time.time()-self.t0:6.1f}s]", *a, flush=True)
    def model(self, what, r, need=None):
        """accounts for a TLC run; a violated invariant of the model itself is an
        error of the check, not of the code"""
        if not r.ok: raise CheckError(f"TLC: {what} failed\n" + r.out[-3500:])
        self.states += r.distinct; self.transitions += r.generated
        self.cov.setdefault("tlc_runs", []).append({"what": what, "distinct_states": r.distinct, "generated": r.generated})
        self.log("TLC", what, f"{r.distinct} distinct states")
    def impl(self, what, out, key="cases"):
        self.traces += out.stats.get(key, 0)
        self.cov.setdefault("conformance", []).append(dict({"what": what}, **out.stats))
        self.log("replay", what, out.stats)
        self.samples += out.samples[:4]
        for f in out.fails: self.fail(f)
    def fail(self, f):
        for k in self.findings:
            if match_finding(k, f):
                self.known_hit.setdefault(k["id"], (k, f)); return
        self.fails.append(f)
    def finish(self):
        rc = 0
        for k, f in self.known_hit.values():
            print(f"KNOWN-FINDING: property={self.pid} {k['what']}")
        cov = dict(states=self.states, transitions=self.transitions,
                   traces_validated_against_impl=self.traces, samples=self.samples[:12] or ["none"], **self.cov)
        if self.fails:
            rc = 1
            rd = os.path.join(VERIF, "replay"); os.makedirs(rd, exist_ok=True)
            p = os.path.join(rd, f"{self.pid}.json")
            with open(p, "w") as f: json.dump({"property": self.pid, "seed": SEED, "tier": TIER, "failures": self.fails[:40]}, f, indent=1)
            for x in self.fails[:5]: print("  " + json.dumps(x)[:700])
            print(f"VIOLATION property={self.pid} replay={p}", flush=True)
        ev = {"property": self.pid, "tier": "thorough" if THOROUGH else "quick", "seed": SEED, "level": self.level,
              "coverage": cov, "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2),
              "violations": len(self.fails)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        p = os.path.join(VERIF, "evidence", self.pid + ".json")
        with open(p + ".tmp", "w") as f: json.dump(ev, f, indent=1)
        os.rename(p + ".tmp", p)
        self.log("done", "VIOLATION" if rc else "held", f"{len(self.fails)} failures")
        return rc

def match_finding(k, f):
    """a finding names the exact failing observation(s) by a set of key/values"""
    return any(all(f.get(a) == b for a, b in m.items()) for m in k["match"])
