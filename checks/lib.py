"""Shared machinery of the checks: scratch build of /repo, TLC runner, cross
compile/run helpers, evidence and verdicts."""
import atexit, concurrent.futures, hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("TOYCC_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"
JAVA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
XGCC = "riscv64-linux-gnu-gcc"
NPROC = 8
LOC_ENV = dict(os.environ, LC_ALL="C.UTF-8")

class Broken(Exception):
    """The machinery (not the property) failed."""

def quick(a, b):
    return b if THOROUGH else a

class Check:
    def __init__(self, pid, level="model_checking"):
        self.pid, self.level = pid, level
        self.t0 = time.time()
        self.tmp = tempfile.mkdtemp(prefix="vp-%s-" % pid)
        self.main_pid = os.getpid()
        atexit.register(self._clean)
        self.rng = random.Random(SEED * 1000003 + int(hashlib.sha1(pid.encode()).hexdigest()[:8], 16))
        self.states = self.transitions = 0
        self.traces = 0            # model behaviours replayed on the real code
        self.samples = []
        self.extra = {}
        self.violations = []       # (key, description, files)
        self.known_hit = []
        self.assumptions = []
        self.tlc_runs = []
        self.known = load_known(pid)
        self.toycc = None

    def _clean(self):
        if os.getpid() == self.main_pid:
            shutil.rmtree(self.tmp, ignore_errors=True)

    def rng_for(self, *k):
        return random.Random("%d/%s/%s" % (SEED, self.pid, "/".join(map(str, k))))

    def path(self, *a):
        p = os.path.join(self.tmp, *a)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        return p

    def write(self, name, text):
        p = self.path(name)
        with open(p, "wb") as f:
            f.write(text.encode("utf-8", "surrogateescape") if isinstance(text, str) else text)
        return p

    # ---- the system under test
    def build(self):
        d = os.path.join(self.tmp, "src")
        shutil.copytree(REPO, d, ignore=shutil.ignore_patterns("output", ".git", "toycc-tmpfile-*", "toycc-test-*"), symlinks=True)
        r = subprocess.run(["make", "-j8", "CC=gcc", "output/toycc"], cwd=d, env=LOC_ENV,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode or not os.path.exists(d + "/output/toycc"):
            raise Broken("build of /repo failed:\n" + r.stdout[-3000:])
        shutil.rmtree(d + "/output/include", ignore_errors=True)
        shutil.copytree(d + "/include", d + "/output/include")
        self.toycc = d + "/output/toycc"
        return self.toycc

    def rt(self):
        """gcc-compiled run-time helpers (vp.o)."""
        o = self.path("rt/vp.o")
        if not os.path.exists(o):
            run([XGCC, "-O1", "-c", os.path.join(VERIF, "checks", "rt", "vp.c"), "-o", o], check=True)
        return o

    # ---- the specification
    def tlc(self, module, cfg=None, batch=None, name=None, workers=NPROC, timeout=800, xmx="6g", env=None, extra=()):
        """Run TLC; return the list of strings printed with PrintT("RES ...")."""
        name = name or module
        wd = tempfile.mkdtemp(prefix="tlc-", dir=self.tmp)
        e = dict(LOC_ENV)
        if batch is not None:
            bp = os.path.join(wd, "batch.json")
            with open(bp, "w") as f:
                json.dump(batch, f)
            e["BATCH"] = bp
        if env:
            e.update(env)
        cmd = ["java", "-Xss256m", "-Xmx" + xmx, "-XX:+UseParallelGC", "-cp", JAVA_CP,
               "-DTLA-Library=" + SPEC, "tlc2.TLC", "-noGenerateSpecTE", "-metadir", wd + "/st",
               "-workers", str(workers), "-fpmem", "0.1", "-config", os.path.join(SPEC, cfg or module + ".cfg"),
               *extra, os.path.join(SPEC, module + ".tla")]
        t = time.time()
        outp = os.path.join(wd, "out.txt")
        with open(outp, "w") as f:
            try:
                r = subprocess.run(cmd, cwd=wd, env=e, stdout=f, stderr=subprocess.STDOUT, timeout=timeout)
            except subprocess.TimeoutExpired:
                raise Broken("TLC timed out on %s" % name)
        res, gen, dist, err = [], 0, 0, []
        ok = False
        with open(outp, errors="replace") as f:
            for line in f:
                if line.startswith('"RES '):
                    res.append(json.loads(line.strip())[4:] if '\\' in line else line.strip()[5:-1])
                elif "states generated" in line and "distinct states found" in line and not line.startswith("Progress"):
                    m = re.match(r"([\d,]+) states generated, ([\d,]+) distinct", line)
                    if m:
                        gen, dist = (int(x.replace(",", "")) for x in m.groups())
                elif line.startswith("Model checking completed. No error"):
                    ok = True
                elif line.startswith("Error:") or err:
                    err.append(line)
        shutil.rmtree(wd, ignore_errors=True)
        if not ok:
            raise Broken("TLC did not pass on %s (rc %s):\n%s" % (name, r.returncode, "".join(err[:60])))
        self.states += dist
        self.transitions += gen
        self.tlc_runs.append(dict(model=name, generated=gen, distinct=dist, results=len(res), wall_s=round(time.time() - t, 1)))
        return res

    # ---- verdicts
    def violation(self, key, what, files=None, detail=""):
        """key identifies the specific failing input, for the known-findings file."""
        for k in self.known:
            if k["key"] == key:
                if key not in [x["key"] for x in self.known_hit]:
                    self.known_hit.append(k)
                return
        self.violations.append(dict(key=key, what=what, files=files or {}, detail=detail))

    def sample(self, s, cap=4):
        if len(self.samples) < cap:
            self.samples.append(s)

    def finish(self):
        EV = os.environ.get("VP_EVIDENCE", VERIF + "/evidence"); os.makedirs(EV, exist_ok=True)
        cov = dict(states=self.states, transitions=self.transitions,
                   traces_validated_against_impl=self.traces, samples=self.samples or ["none"],
                   tlc_runs=self.tlc_runs, **self.extra)
        ev = dict(property=self.pid, tier=TIER if TIER in ("quick", "thorough") else "quick", seed=SEED,
                  level=self.level, coverage=cov, assumptions=self.assumptions,
                  wall_s=round(time.time() - self.t0, 2), violations=len(self.violations))
        with open(os.path.join(EV, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k in self.known_hit:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]))
        if self.violations:
            d = os.path.join(EV, "replay-" + self.pid)
            shutil.rmtree(d, ignore_errors=True)
            for n, v in enumerate(self.violations[:int(os.environ.get("VP_MAXFOUND", "5"))]):
                vd = os.path.join(d, str(n))
                os.makedirs(vd, exist_ok=True)
                with open(vd + "/what.txt", "w", encoding="utf-8", errors="backslashreplace") as f:
                    f.write("%s\n%s\n%s\n" % (v["key"], v["what"], v["detail"]))
                for fn, txt in v["files"].items():
                    os.makedirs(os.path.dirname(os.path.join(vd, fn)), exist_ok=True)
                    with open(os.path.join(vd, fn), "wb") as f:
                        f.write(txt.encode("utf-8", "surrogateescape") if isinstance(txt, str) else txt)
                print("# %s: %s" % (v["key"], v["what"][:600]))
                if os.environ.get("VP_VERBOSE"):
                    print(ascii(v["detail"][:3000]) if any(0xd800 <= ord(c) < 0xe000 for c in v["detail"]) else v["detail"][:3000])
                print("VIOLATION property=%s replay=%s" % (self.pid, vd))
            if len(self.violations) > 5:
                print("# ... %d violations in all" % len(self.violations))
            sys.stdout.flush()
            return 1
        print("%s: ok, %d states, %d traces validated, %.1f s" % (self.pid, self.states, self.traces, time.time() - self.t0))
        return 0

def load_known(pid):
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)$", line.strip())
            if m and m[1] == pid:
                out.append(dict(key=m[2], what=m[3]))
    return out

def main(pid, fn):
    ck = Check(pid)
    try:
        ck.build()
        fn(ck)
        rc = ck.finish()
    except Broken as e:
        print("CHECK-ERROR %s: %s" % (pid, e))
        rc = 2
    ck._clean()
    sys.exit(rc)

def run(cmd, check=False, timeout=60, cwd=None, env=None, input=None, text=True):
    try:
        r = subprocess.run(cmd, cwd=cwd, env=env or LOC_ENV, input=input, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           timeout=timeout, stdin=None if input is not None else subprocess.DEVNULL)
        rc, o, e = r.returncode, r.stdout, r.stderr
    except subprocess.TimeoutExpired as x:
        rc, o, e = -999, x.stdout or b"", (x.stderr or b"") + b"\n[timeout]"
    if text:
        o, e = o.decode("utf-8", "replace"), e.decode("utf-8", "replace")
    if check and rc:
        raise Broken("%s failed: %s" % (" ".join(map(str, cmd)), e[-2000:] if text else e[-2000:].decode(errors="replace")))
    class R: pass
    x = R(); x.rc, x.out, x.err = rc, o, e
    return x

def pmap(fn, items, n=NPROC):
    items = list(items)
    if not items:
        return []
    with concurrent.futures.ThreadPoolExecutor(n) as ex:
        return list(ex.map(fn, items))

QEMU = ["qemu-riscv64", "-L", "/usr/riscv64-linux-gnu"]

def toycc_env():
    # freed and fresh heap memory is never conveniently zero
    return dict(LOC_ENV, MALLOC_PERTURB_="165")

def compile_toycc(ck, src, obj, args=(), timeout=60):
    """toycc -c with a private cwd (its temporary files go to the cwd)."""
    d = os.path.dirname(obj)
    if os.environ.get("VP_SPEC_CHECK"):        # development: judge the specification by gcc
        return run([XGCC, "-w", "-O0", "-fsigned-char", "-fwrapv", *args, "-c", src, "-o", obj], cwd=d, timeout=timeout)
    return run([ck.toycc, *args, "-c", src, "-o", obj], cwd=d, env=toycc_env(), timeout=timeout)

def link(objs, exe, args=()):
    run([XGCC, "-static", "-o", exe, *objs, "-lm", "-lpthread", *args], check=True, timeout=120)

def qemu(exe, args=(), timeout=60, env=None):
    return run([*QEMU, exe, *args], timeout=timeout, env=env)

# ---- words
def w2i(w, signed=True):
    return int.from_bytes(bytes(w), "little", signed=signed)
def i2w(n):
    return list((n & (2**64 - 1)).to_bytes(8, "little"))
