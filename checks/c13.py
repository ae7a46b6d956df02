#!/usr/bin/env python3
"""C13: every configuration enumerated by Driver.tla is replayed on the real driver with stand-ins for as and ld."""
from lib import *
import shutil

EXT = dict(c=".c", cbad=".c", cmiss=".c", cdir=".c", cas=".c", s=".s", smiss=".s", sas=".s", o=".o", a=".a", so=".so", unk=".txt")
EXTRA = dict(static=["-static"], shared=["-shared"], L=["-Lsome/dir"], Xlinker=["-Xlinker", "--gc"], s=["-s"])
LDEXTRA = dict(static=["-static"], shared=["-shared"], L=["-L", "some/dir"], Xlinker=["--gc"], s=["-s"])

def content(k, n, x):
    if k in ("s", "sas") or (k == "unk" and x == "assembler"): return ".globl vp_%d%s\nvp_%d%s:\n" % (n, "_FAILAS" * (k == "sas"), n, "_FAILAS" * (k == "sas"))
    if k in ("o", "a", "so"): return "OBJ vp_%d\n" % n
    if k == "cbad": return ("#error vp_%d\n" if x == "E" else "int vp_%d(void) { return 1 +; }\n") % n
    return "int vp_%d%s(void) { return %d; }\n" % (n, "_FAILAS" * (k == "cas"), n)

def body(ck):
    stub = ck.path("stub/stage"); run(["gcc", "-O1", "-w", "-o", stub, os.path.join(VERIF, "tools/stub/stage.c")], check=True)
    pathdir = {}
    for a in (0, 1):
        for l in (0, 1):
            d = os.path.dirname(ck.path("bin%d%d/x" % (a, l)))
            if a: shutil.copy2(stub, d + "/riscv64-linux-gnu-as")
            if l: shutil.copy2(stub, d + "/riscv64-linux-gnu-ld")
            pathdir[a, l] = d
    res = sorted(set(ck.tlc("Driver", cfg=quick("Driver.cfg", "DriverBig.cfg"))))
    cases = [json.loads(r) for r in res]
    total = len(cases)
    def do(a):
        idx, (cf, status, files, log, out, frame) = a
        r = random.Random(idx * 7919 + SEED)
        d = os.path.dirname(ck.path("run%d/x" % idx)); logp = d + ".log"
        sub = r.random() < .3               # inputs in a subdirectory: results still go to the working directory
        ins, args, inputs = {}, [], []
        for n, k in enumerate(cf["kinds"], 1):
            if k == "l": inputs.append("-lfoo%d" % n); continue
            if k == "wl": inputs.append("-Wl,--wla%d,--wlb%d" % (n, n)); continue
            p = ("src/" if sub else "") + "in%d%s" % (n, EXT[k])
            q = os.path.join(d, p); os.makedirs(os.path.dirname(q), exist_ok=True)
            if k == "cdir": os.makedirs(q)
            elif k not in ("cmiss", "smiss"):
                t = content(k, n, "E" if cf["mode"] == "E" else cf["x"]); ins[p] = t
                with open(q, "w") as f: f.write(t)
            inputs.append(p)
        opts = []
        if cf["mode"] != "L": opts.append(["-" + cf["mode"]])
        o = dict(none=None, file="file", nodir="no/such/dir/f", full="/dev/full", stdout="-")[cf["out"]]
        if o: opts.append(r.choice([["-o", o], ["-o" + o]]))
        if cf["x"]: opts.append(r.choice([["-x", cf["x"]], ["-x" + cf["x"]]]))
        if cf["extra"]: opts.append(EXTRA[cf["extra"]])
        if r.random() < .1: opts.append(["-###"])
        r.shuffle(opts)
        seq = [[x] for x in inputs]
        for q in opts: seq.insert(r.randint(0, len(seq)), q)
        if cf["cl"] == "no input": seq = opts
        if cf["cl"] == "unknown option": seq.insert(r.randint(0, len(seq)), [r.choice(["-zzz", "-Q", "--frobnicate", "-fno-such"])])
        if cf["cl"] == "missing argument": seq.append([r.choice(["-o", "-I", "-idirafter", "-include", "-x", "-MF", "-MT", "-MQ", "-Xlinker", "-D", "-U", "-L"])])
        args = [x for q in seq for x in q]
        env = dict(toycc_env(), PATH=pathdir[int(cf["as"] != "missing"), int(cf["ld"] != "missing")], VP_LOG=logp, VP_AS=cf["as"], VP_LD=cf["ld"])
        def tree(): return {os.path.relpath(os.path.join(a, f), d) for a, _, fs in os.walk(d) for f in fs}
        before = tree()
        x = run([ck.toycc, *args], cwd=d, env=env, timeout=20)
        try:
            cmd = "toycc " + " ".join(args)
            if (x.rc != 0) != (status != 0) or x.rc < 0: return cmd, "exit status %d, expected %s; %s" % (x.rc, status, x.err[-200:])
            if status and not x.err.strip() and not (log and cf["as"] != "missing"): return cmd, "failed without a diagnostic"
            want = {dict(file="file").get(k, k): v for k, v in (files.items() if isinstance(files, dict) else [])}
            new = tree() - before
            if new != set(want): return cmd, "files left %s, expected %s" % (sorted(new), sorted(want))
            for p, t in ins.items():
                if open(os.path.join(d, p)).read() != t: return cmd, "input %s was modified" % p
            for p, (kind, n) in want.items():
                t = open(os.path.join(d, p), errors="replace").read()
                sig = dict(pp="int vp_%d" % n, asm="vp_%d" % n, obj="OBJ vp_%d" % n, exe="EXE")[kind]
                if sig not in t or (kind == "asm") != (".text" in t): return cmd, "%s does not hold %s of input %d" % (p, kind, n)
            ids = [int(m) for m in re.findall(r"(?:int vp_|\n\s*vp_|^vp_)(\d+)(?=\w*[:(])", x.out)]
            ids = [n for i, n in enumerate(ids) if i == 0 or ids[i-1] != n]
            if ids != out: return cmd, "standard output holds %s, expected %s" % (ids, out)
            got, L = [], []
            if os.path.exists(logp):
                for line in open(logp):
                    f = line.rstrip("\n").split("\t")
                    if f[0] == "as": got.append(["as", int(f[1])])
                    elif f[0] == "ld": got.append(["ld", []]); L = []
                    else: got[-1][1].append((int(f[1]), f[2]))
            exp = [e if e[0] == "as" else ["ld", e[1]] for e in log]
            if [g[0] for g in got] != [e[0] for e in exp]: return cmd, "commands run %s, expected %s" % ([g[0] for g in got], [e[0] for e in exp])
            for g, e in zip(got, exp):
                if g[0] == "as":
                    if g != e: return cmd, "assembled input %s, expected %s" % (g[1], e[1])
                    continue
                argv = g[1]
                if [x[1] for x in argv[:2]] != ["-o", o or "a.out"]: return cmd, "linker output %s" % argv[:2]
                seqn, ins_at = [], []
                for j, (n, s) in enumerate(argv):
                    m = re.match(r"-lfoo(\d+)$", s); m2 = re.match(r"--wla(\d+)$", s); m3 = re.match(r"--wlb(\d+)$", s)
                    if n: seqn.append(["obj", n])
                    elif m: seqn.append(["l", int(m[1])])
                    elif m2: seqn.append(["wl", int(m2[1])])
                    elif m3:
                        if not seqn or seqn[-1] != ["wl", int(m3[1])] or argv[j-1][1] != "--wla" + m3[1]: return cmd, "-Wl arguments torn apart"
                        continue
                    else: continue
                    ins_at.append(j)
                if seqn != e[1]: return cmd, "linker inputs %s, expected %s" % (seqn, e[1])
                crt = [(j, os.path.basename(s)) for j, (n, s) in enumerate(argv) if os.path.basename(s).startswith("crt")]
                pre = [c for j, c in crt if j < ins_at[0]]; post = [c for j, c in crt if j > ins_at[-1]]
                if [pre, post] != frame: return cmd, "start-up objects %s, expected %s" % ([pre, post], frame)
                if ("-dynamic-linker" in [s for _, s in argv]) != (cf["extra"] != "static"): return cmd, "dynamic linker"
                if cf["extra"]:
                    ex = LDEXTRA[cf["extra"]]; ss = [s for _, s in argv]
                    if not any(ss[j:j+len(ex)] == ex for j in range(len(ss))): return cmd, "linker arguments lack %s" % ex
        finally:
            shutil.rmtree(d, ignore_errors=True)
            if os.path.exists(logp): os.unlink(logp)
    for (idx, c), why in zip(enumerate(cases), pmap(do, list(enumerate(cases)))):
        if why: ck.violation("driver:" + json.dumps(c[0], sort_keys=True), "%s: %s" % why, {"config.json": json.dumps(c[0], indent=1), "expected.json": json.dumps(c[1:]), "cmd.txt": why[0]}, json.dumps(c))
    ck.traces += len(cases)
    ck.extra["configurations"] = dict(enumerated=total, replayed=len(cases))
    for c in cases[:2]: ck.sample(dict(config=c[0], expected=c[1:]))

if __name__ == "__main__":
    main("C13", body)
