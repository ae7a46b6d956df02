#!/usr/bin/env python3
from lib import *
import genatom, multiprocessing, rsp
from genatom import *

def unhex(s): return list(bytes.fromhex(s))

def build(ck, name, text, rt, args=()):
    d = os.path.dirname(ck.write(name + "/t.c", text))
    r = compile_toycc(ck, d + "/t.c", d + "/t.o", args)
    if r.rc: return None, r.err
    ck.write(name + "/rt.c", rt)
    run([XGCC, "-O1", "-c", d + "/rt.c", "-o", d + "/rt.o"], check=True)
    r = run([XGCC, "-static", "-o", d + "/t", d + "/t.o", d + "/rt.o", "-lpthread"], timeout=120)
    if r.rc: return None, r.err
    return d + "/t", None

def outcomes(ck, cases, name, raw=False):
    """per case the outcomes the specification has, or None if one is undefined"""
    want = [[] for _ in cases]
    for l in ck.tlc("Atomics", batch=[c.model() for c in cases], name=name):
        k, what, x, nb, res = json.loads(l)
        if what == "undefined": want[k-1] = None
        elif want[k-1] is not None: want[k-1].append([x, nb, res[0]] if not raw else [x, nb, res])
    return want

def show(c):
    return "%s, object %s: %s%s" % (nm(c.t), bytes(c.x).hex(), c.ops, " || %s" % c.env if c.env else "")

def sequential(ck, rng):
    cases = []
    for t in ATYPES:
        for kd in sorted(set(kinds(t))):
            for _ in range(quick(12, 120)): cases.append(Case(rng, t, 1, kd))
        for _ in range(quick(20, 300)): cases.append(Case(rng, t, rng.randint(2, 5)))
    want = outcomes(ck, cases, "atomics-sequential")
    cases = [(c, w) for c, w in zip(cases, want) if w]
    G = 60
    groups = [cases[i:i+G] for i in range(0, len(cases), G)]
    def do(gi):
        gr = groups[gi]
        bad, n = [], 0
        def go(items, tag):
            exe, err = build(ck, "seq%d-%s" % (gi, tag), seq_text([c for c, _ in items]), RT)
            if not exe: return None, err
            r = qemu(exe)
            ls = r.out.split("\n")[:-1]
            return (ls, "") if r.rc == 0 and len(ls) == len(items) else (None, "exit status %s after %d of %d cases\n%s" % (r.rc, len(ls), len(items), r.err))
        ls, err = go(gr, "a")
        if ls is None:
            for i, it in enumerate(gr):
                ls, err = go([it], "b%d" % i)
                if ls is None: bad.append((it[0], "compiled and run", err))
                elif got(it[0], ls[0]) not in it[1]: bad.append((it[0], it[1], got(it[0], ls[0])))
                if len(bad) > 3: break
            return bad, len(gr)
        for (c, w), l in zip(gr, ls):
            if got(c, l) not in w: bad.append((c, w, got(c, l)))
        return bad, len(gr)
    def got(c, l):
        f = l.split()
        return c.shown(*map(unhex, f))
    for bad, n in pmap(do, range(len(groups))):
        ck.traces += n
        for c, w, g in bad[:3]:
            ck.violation("atomic-seq", "the result of an atomic operation is not that of the specification: " + show(c),
                         {"t.c": seq_text([c])}, "want one of %s\ngot  %s" % (w, g))
    ck.extra["sequential_cases"] = len(cases)
    ck.sample(show(cases[len(cases)//2][0]))

def symbols(exe):
    s = {}
    for l in run(["riscv64-linux-gnu-nm", exe], check=True).out.split("\n"):
        f = l.split()
        if len(f) == 3: s[f[2]] = int(f[0], 16)
    return s

def inject(job):
    """every instruction boundary of the operation as the moment of the other thread's step"""
    exe, sock, items, seed = job
    r = random.Random(seed)
    sy = symbols(exe)
    found, runs = [], 0
    s = rsp.Rsp(exe, sock)
    try:
        s.brk(sy["done"]); s.cont()
        for k, c, want, loads in items:
            sz = size(c.t)
            def start():
                s.write(sy["sel"], k.to_bytes(4, "little"))
                s.step()
                s.brk(sy["op_%d" % k]); s.cont(); s.unbrk(sy["op_%d" % k])
            def env(o):
                if o[0] == "nb":
                    a = o[1] - 1
                    s.write(sy["g_%d" % k] + (a if a < c.P else a + sz), bytes([o[2]]))
                else: s.write(sy["g_%d" % k] + c.P, bytes(o[2]))
            def finish():
                for _ in range(3):
                    if s.pc() == sy["done"]: break
                    s.cont()
                n = len(c.ops)
                return c.shown(s.read(sy["g_%d" % k], c.P + sz + 8), s.read(sy["res_%d" % k], n * sz), s.read(sy["rb_%d" % k], n), s.read(sy["exp_%d" % k], n * sz))
            # what other threads see at each boundary
            start()
            n, seen = 0, []
            while s.pc() != sy["done"] and n < 3000:
                g = s.read(sy["g_%d" % k], c.P + sz + 8)
                o = [list(g[c.P:c.P+sz]), list(g[:c.P]) + list(g[c.P+sz:])]
                if not seen or seen[-1] != o: seen.append(o)
                s.step(); n += 1
            if n >= 3000:
                found.append((k, "the operation ends", "3000 instructions without end"))
                return found, runs
            for o in seen:
                if o not in loads: found.append((k, ["visible to other threads"] + loads, o))
            points = list(range(n))
            for i in points:
                start()
                for _ in range(i): s.step()
                env(c.env[0])
                at = i
                if len(c.env) > 1:
                    j = r.randint(0, max(0, n - i - 1))
                    while j and s.pc() != sy["done"]: s.step(); j -= 1
                    env(c.env[1])
                try: o = finish()
                except (socket_timeout, EOFError, ConnectionError) as e:
                    found.append((k, want, "no end after the other thread's step at instruction %d (%s)" % (i, e)))
                    return found, runs
                runs += 1
                if o not in want:
                    found.append((k, want, o)); break
    except (socket_timeout, EOFError, ConnectionError) as e: found.append((k, "the operation ends", "the program died: %s" % e))
    finally: s.close()
    return found, runs
import socket
socket_timeout = socket.timeout

def interleaved(ck, rng):
    cases = []
    for t in ATYPES:
        ks = sorted(set(kinds(t)))
        for kd in ks:
            for rep in range(quick(1, 6)):
                for e in range(3):
                    c = Case(rng, t, 1, kd)
                    w = lambda: ["store", t, vbytes(rng, t)]
                    near = [i for i in range(1, len(c.nb) + 1) if (i - 1 if i <= c.P else i - 1 + size(t)) // 4 == c.P // 4] or [c.P, c.P + 1]
                    nbw = lambda: (lambda i: ["nb", i, c.nb[i-1] ^ rng.randint(1, 255)])(rng.choice(near))
                    if e == 0: c.env = [w()]
                    elif e == 1: c.env = [nbw()]
                    else: c.env = [w(), ["store", t, list(c.x)]] if rng.random() < .5 else [w(), nbw()]
                    if kd == "cas" and e == 0: c.ops[0][1] = list(c.x) if rng.random() < .5 else c.env[0][2]
                    cases.append(c)
    want = outcomes(ck, cases, "atomics-interleaved")
    # what a load of another thread may see: the object before or after, the neighbours as they are
    class L:
        def __init__(self, c): self.c = c
        def model(self): return dict(self.c.model(), thr=[self.c.ops, [["load"]]])
    lw = outcomes(ck, [L(c) for c in cases], "atomics-visible", True)
    items = []
    for c, w, l in zip(cases, want, lw):
        if w is None or l is None: continue
        items.append((c, w, [[o[2][1][0][0], o[1]] for o in l]))
    G = 30
    jobs = []
    for gi in range(0, len(items), G):
        gr = items[gi:gi+G]
        exe, err = build(ck, "step%d" % gi, step_text([c for c, _, _ in gr]), RT)
        if not exe:
            ck.violation("atomic-compile", "atomic operations are compiled", {"t.c": step_text([c for c, _, _ in gr])}, err); continue
        jobs.append((exe, gr))
    pj = []
    for j, (exe, gr) in enumerate(jobs):
        for h in range(0, len(gr), 8):
            pj.append(((exe, "/tmp/vp-%d-%d-%d.sock" % (os.getpid(), j, h), [(k, *gr[k]) for k in range(h, min(h + 8, len(gr)))], "%d/%d" % (j, h)), gr))
    with multiprocessing.get_context("fork").Pool(NPROC) as pool:
        rs = pool.map(inject, [a for a, _ in pj], 1)
    n = 0
    for (a, gr), (found, runs) in zip(pj, rs):
        if os.path.exists(a[1]): os.unlink(a[1])
        n += runs
        for k, w, g in found[:2]:
            ck.violation("atomic-step", "another thread's step during an atomic operation gives what no order of the two gives: " + show(gr[k][0]),
                         {"t.c": step_text([gr[k][0]])}, "want one of %s\ngot  %s" % (w, g))
    ck.traces += n
    ck.extra["interleavings_replayed"] = n
    ck.extra["interleaved_cases"] = len(items)

def histories(ck, rng):
    hs = [Hist(rng, t, 3, quick(20, 30)) for t in ATYPES for _ in range(quick(2, 8))]
    def do(i):
        exe, err = build(ck, "hist%d" % i, hs[i].text(), HRT)
        if not exe: return err
        r = qemu(exe)
        ls = [[unhex(x) for x in l.split()] for l in r.out.split("\n")[:-1]]
        return ls if r.rc == 0 and len(ls) == 40 and all(len(l) == 4 for l in ls) else "exit status %s\n%s" % (r.rc, r.err)
    batch, ix = [], []
    for i, r in enumerate(pmap(do, range(len(hs)), 2)):
        if isinstance(r, str):
            ck.violation("atomic-history", "threads with atomic operations on %s run to the end" % nm(hs[i].t), {"t.c": hs[i].text()}, r); continue
        for l in rng.sample(r, quick(4, 10)): batch.append(hs[i].model(*l[1:])); ix.append((i, l))
    ok = set()
    for l in ck.tlc("Atomics", batch=batch, name="atomics-histories"):
        k, what, x, nb, res = json.loads(l)
        if what == "undefined" or x == ix[k-1][1][0]: ok.add(k-1)
    for j, (i, l) in enumerate(ix):
        ck.traces += 1
        if j not in ok:
            ck.violation("atomic-history", "the results recorded by three threads on an atomic %s have no total order" % nm(hs[i].t), {"t.c": hs[i].text(), "history.json": json.dumps(batch[j])},
                         "final %s" % l[0])
    ck.extra["thread_histories"] = len(ix)

def tls(ck, rng):
    cs = [genatom.Tls(rng, nthr=rng.randint(2, 5), steps=quick(60, 120)) for _ in range(quick(60, 600))]
    want = {json.loads(l)[0] - 1: json.loads(l)[1] for l in ck.tlc("Tls", batch=[c.model() for c in cs])}
    def do(i):
        U = cs[i].units()
        d = os.path.dirname(ck.write("tls%d/u0.c" % i, U[0])); ck.write("tls%d/u1.c" % i, U[1]); ck.write("tls%d/u2.c" % i, U[2])
        args = [(), ("-fpic",), ()][i % 3]
        for u in (0, 1):
            r = compile_toycc(ck, "%s/u%d.c" % (d, u), "%s/u%d.o" % (d, u), args)
            if r.rc: return "compile", r.err
        run([XGCC, "-w", "-O1", "-c", d + "/u2.c", "-o", d + "/u2.o"], check=True)
        r = run([XGCC, "-static", "-o", d + "/t", d + "/u0.o", d + "/u1.o", d + "/u2.o", "-lpthread"])
        if r.rc: return "link", r.err
        r = qemu(d + "/t")
        if r.rc: return "run", "exit status %s %s" % (r.rc, r.err)
        w = "".join("%d\n" % x for x in want[i])
        return None if r.out == w else ("results", "\n".join("%s want %s got %s" % x for x in zip([s for s in cs[i].sched if s[1] in ("get", "peek", "same")], want[i], r.out.split()) if str(x[1]) != x[2])[:1500])
    for i, r in enumerate(pmap(do, range(len(cs)))):
        ck.traces += 1
        if r:
            U = cs[i].units()
            ck.violation("tls-" + r[0], "thread-local objects: %s" % r[0], {"u0.c": U[0], "u1.c": U[1], "u2.c": U[2]}, r[1])
    ck.extra["tls_schedules"] = len(cs)
    ck.sample("tls: %s" % cs[0].sched[:12])

def body(ck):
    ck.tlc("AtomicsAlg")
    sequential(ck, ck.rng_for("seq"))
    interleaved(ck, ck.rng_for("step"))
    histories(ck, ck.rng_for("hist"))
    tls(ck, ck.rng_for("tls"))

if __name__ == "__main__":
    main("C18", body)
