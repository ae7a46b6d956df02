#!/usr/bin/env python3
"""C14: worlds of Preproc with dependency options; Deps.tla says what the rule must be."""
from lib import *
import geninc, pp
from pp import *

ODD = ["h1.h", "two words.h", "d$l.h", "ha#sh.h", "b\\ k.h", "sub/in.h", "x$$y.h", "e.h", "sp  ace#.h", "t.tar.h", "noext"]
MAINS = ["main.c", "main.c", "m$x.c", "two words.c", "a.b.c", "ha#sh.c", "b\\ s.c"]

def odd_world(rng):
    w = World(); w.rng = None; w.tool = True
    names = rng.sample(ODD, rng.randint(1, 6))
    w.base = "w/" + rng.choice(MAINS)
    dirs = ["w", "w/inc1", "tc/include"]
    w.dirs = [["w", "inc1"], ["tc", "include"]]; w.args = rng.choice([["-Iw/inc1"], ["-I", "w/inc1"]])
    inc = lambda h: [["p", "#", 0], ["i", "include", 0], w.header('"%s"' % h)]
    L = []
    for _ in range(rng.randint(1, 7)):
        h = rng.choice(names)
        L.append(inc(h))
        if rng.random() < .2: L = L[:-1] + [T("#if 0"), L[-1], T("#endif")]
    w.file(w.base, L + [T("int x;")])
    for i, h in enumerate(names):
        for d in rng.sample(dirs, rng.choice([1, 1, 2])):
            B = [T("#pragma once")] if rng.random() < .3 else []
            for k in names[i+1:]:
                if rng.random() < .4: B.append(inc(k))
            if rng.random() < .3: B = [T("#ifndef G%d" % i), T("#define G%d" % i)] + B + [T("#endif")]
            w.file(d + "/" + h, B)
    if rng.random() < .3:
        w.file("pre.h", [T("#pragma once")]); w.pre.append(["pre.h"]); w.args += ["-include", "pre.h"]
    return w

def opts(rng, w):
    """options in order: [name, value]; and the mode"""
    o = []
    mode = rng.choice(["M", "M", "MD", "MD", "MMD", "MMD"])
    o.append([mode, ""])
    if mode != "M":
        if rng.random() < .15: o.append(["MMD" if mode == "MD" else "MD", ""])
        o.append([rng.choice(["c", "c", "S", "E"]), ""])
    if rng.random() < .35: o.append(["MF", rng.choice(["out.d", "w/dep.x", "my deps", "-"])])
    if rng.random() < .5: o.append(["o", rng.choice(["prog.o", "w/prog.x.o", "q", "w/sub/o.o"])])
    for _ in range(rng.choice([0, 0, 0, 1, 1, 2, 3])):
        o.append(rng.choice([["MT", rng.choice(["tgt", "$(obj)x.o", "a b", "x#y"])], ["MQ", rng.choice(["tgt2", "$(obj)x.o", "a b", "x#y", "p\\ q", "c$d e"])]]))
    if rng.random() < .4: o.append(["MP", ""])
    rng.shuffle(o)
    return o
def argv(o):
    r = []
    for n, v in o: r += ["-" + n] + ([v] if n in ("MF", "MT", "MQ", "o") else [])
    return r

def unquote(s):
    """names of a make prerequisite list"""
    out, cur, i = [], "", 0
    while i < len(s):
        c = s[i]
        if c == "\\":
            j = i
            while j < len(s) and s[j] == "\\": j += 1
            n = j - i
            if j < len(s) and s[j] in " \t":
                cur += "\\" * (n // 2)
                if n % 2: cur += s[j]; j += 1
            elif j < len(s) and s[j] == "#": cur += "\\" * (n // 2) + "#"; j += 1
            else: cur += "\\" * n
            i = j
        elif c == "$" and s[i+1:i+2] == "$": cur += "$"; i += 2
        elif c in " \t":
            if cur: out.append(cur)
            cur = ""; i += 1
        else: cur += c; i += 1
    return out + ([cur] if cur else [])

def body(ck):
    rng = ck.rng_for("deps")
    ws = [odd_world(rng) for _ in range(quick(1000, 10000))]
    for _ in range(quick(700, 7000)):
        w = geninc.world(rng)
        # a standard header reached by an absolute path: no rule says whether it is a system header
        if any("@ROOT@/tc/include" in h["s"] for h in w.hdr): continue
        # only the files count here: nothing the parser would reject
        for f in w.files: f["raw"] = [L for L in f["raw"] if L and L[0][1] == "#"]
        ws.append(w)
    for w in ws: w.layout(w.rng); w.opts = opts(rng, w)
    seen = {}
    for r in ck.tlc("Preproc", batch=[w.model() for w in ws], name="Preproc/deps"):
        k, st, out, opened, _ = json.loads(r)
        seen[k] = (st, opened)
    todo = [k for k in sorted(seen) if seen[k][0] == "done"]
    batch = [dict(src=ws[k-1].base.split("/")[-1], opts=ws[k-1].opts,
                  files=[dict(n="/".join(f["path"]), op=o, sys=int(f["path"][:2] == ["tc", "include"])) for f, o in zip(ws[k-1].files, seen[k][1])]) for k in todo]
    want = {}
    for r in ck.tlc("Deps", batch=batch):
        j, *x = json.loads(r)
        want[todo[j-1]] = x
    def do(k):
        w = ws[k-1]; place, target, listed, phony = want[k]
        d = os.path.dirname(ck.path("deps/%d/x" % k))
        w.write(d); os.makedirs(d + "/w/sub", exist_ok=True)
        os.makedirs(d + "/tc/include", exist_ok=True); os.link(ck.toycc, d + "/tc/toycc")
        before = {os.path.relpath(os.path.join(a, f), d) for a, _, fs in os.walk(d) for f in fs}
        r = run(["./tc/toycc", *[a.replace("@ROOT@", d) for a in w.args], *argv(w.opts), w.base], cwd=d, env=toycc_env(), timeout=20)
        try:
            if r.rc: return "failed (rc %d): %s" % (r.rc, r.err[-300:])
            after = {os.path.relpath(os.path.join(a, f), d) for a, _, fs in os.walk(d) for f in fs}
            if place == "-": text = r.out
            else:
                if place not in after: return "no dependency file %s; new files: %s" % (place, sorted(after - before))
                text = open(os.path.join(d, place)).read()
        finally: shutil.rmtree(d, ignore_errors=True)
        names = [n for n, _ in w.opts]
        mode = "M" if "M" in names else next(x for x in ("E", "S", "c") if x in names)
        o = dict(w.opts).get("o")
        stem = w.base.split("/")[-1].rsplit(".", 1)[0]
        exp = set() if place == "-" else {place}
        if mode in "cS": exp.add(o or stem + (".o" if mode == "c" else ".s"))
        elif mode == "E" and o: exp.add(o)
        if place != "-" and mode == "M" and r.out.strip(): return "unexpected output on stdout: " + r.out[:200]
        if exp != after - before: return "files written %s, expected %s" % (sorted(after - before), sorted(exp))
        if not text.startswith(target + ":"): return "the rule does not start with %r: %r" % (target + ":", text[:100])
        rest = text[len(target)+1:].replace("\\\n", " ")
        line, _, tail = rest.partition("\n")
        norm = lambda p: os.path.normpath(os.path.relpath(p, d) if p.startswith("/") else p)
        raw = unquote(line)
        if len(set(raw)) != len(raw): return "a prerequisite is listed twice: %s" % raw
        got = sorted({norm(p) for p in raw})
        if got != sorted(set(listed)): return "prerequisites %s, expected %s" % (got, sorted(set(listed)))
        if place == "-" and mode == "E": return None            # tokens follow on the same stream
        ph = [x for x in tail.split("\n") if x.strip()]
        if any(not x.endswith(":") for x in ph): return "not a phony target: %s" % ph
        rawp = [unquote(x[:-1]) for x in ph]
        if any(len(x) != 1 for x in rawp): return "phony target not quoted: %s" % ph
        rawp = [x[0] for x in rawp]
        if len(set(rawp)) != len(rawp): return "a phony target is repeated: %s" % rawp
        if sorted({norm(p) for p in rawp}) != sorted(set(phony)): return "phony targets %s, expected %s" % (sorted(rawp), sorted(set(phony)))
    for k, why in zip(todo, pmap(do, todo)):
        if why:
            w = ws[k-1]
            ck.violation("deps:%d" % k, "world %d: %s\ncommand: toycc %s" % (k, why, " ".join(w.args + argv(w.opts) + [w.base])),
                         dict({f["spelled"]: f["text"] for f in w.files}, **{"cmd.txt": " ".join(["toycc"] + w.args + argv(w.opts) + [w.base])}), w.show())
    ck.traces += len(todo)
    ck.extra["worlds"] = dict(generated=len(ws), judged=len(todo))
    k = todo[7]
    ck.sample(dict(command=" ".join(ws[k-1].args + argv(ws[k-1].opts) + [ws[k-1].base]), expected=want[k]))

if __name__ == "__main__":
    main("C14", body)
