"""C12: random programs of several translation units made of declarations, scopes and uses
(the format ScopeLink.tla reads), their C text, and the comparison of output and symbol tables."""
import random, struct
from lib import *

POOL = ["a", "b", "c", "T", "S", "U", "x1", "a0", "sp", "add", "t1", "zero", "val_", "fa5", "\u00e9t\u00e9"]
SPEC_CHECK = bool(os.environ.get("VP_SPEC_CHECK"))

class Unit:
    """generates the items of a unit; tracks just enough to stay within the language"""
    def __init__(self, g, tu):
        self.g, self.r, self.tu = g, g.r, tu
        self.items, self.sc, self.lab, self.order, self.calls = [], [({}, {})], set(), None, 0
        self.tags = []                     # [kw, complete?, ptr]
    def emit(self, *x): self.items.append(list(x))
    def look(self, n, w=0):
        for s in reversed(self.sc):
            if n in s[w]: return s[w][n]
    def bind(self, n, b, w=0): self.sc[-1][w][n] = b
    def visible(self, kinds):
        return [n for n in self.names() if self.look(n) and self.look(n)["k"] in kinds]
    def names(self): return sorted({n for s in self.sc for n in s[0]})
    def num(self): return self.g.num()
    # ---- declarations with linkage
    def decl(self, n, d):
        """d: one planned declaration (item) of the linked name n"""
        p = self.plan[n]
        it = list(d)
        if it[0] == "obj":
            old = self.look(n)
            ln = it[5]
            if ln == -1 and old and old["k"] == "obj" and old.get("e") == n: ln = old["len"]
            self.items.append(it)
            self.bind(n, dict(k="obj", len=ln, e=n, link=p["link"]))
        elif it[0] == "fdecl":
            self.items.append(it)
            self.bind(n, dict(k="fun", e=n, ord=p["ord"], np=p["np"], link=p["link"]))
        elif it[0] == "fptr":
            c = [f for f in self.visible(["fun"]) if f != n and self.look(f)["np"] == 0 and self.look(f)["ord"] < 1e8]
            if not c: return False
            f = self.r.choice(c)
            self.emit("fptr", n, it[2], f)
            self.bind(n, dict(k="fptr", e=n, ord=self.look(f)["ord"], link=p["link"]))
        else:
            self.items.append(it)
            self.bind(n, dict(k="fun", e=n, ord=p["ord"], np=p["np"], link=p["link"]))
            self.function(n, it, p)
        return True
    def function(self, n, it, p):
        self.sc.append(({}, {}))
        for q in it[4]: self.bind(q, dict(k="obj", len=0, link="n"))
        self.lab, self.order, self.calls = set(), p["ord"], 2 if p["ord"] < 1e8 else 99
        if not p.get("const"):
            self.block(self.r.randint(2, 9), 3)
            if p["ord"] > 1e8:
                for f in self.visible(["fun"]):
                    if self.look(f)["ord"] < 1e8 and self.look(f)["np"] == 0:
                        for _ in range(self.r.choice([1, 1, 2])): self.emit("call", f, [])
        self.order = None
        self.sc.pop(); self.emit("fend")
    # ---- declarations without
    def free(self, w=0):
        c = [n for n in POOL if n not in self.sc[-1][w] and not (len(self.sc) == 1 and w == 0 and n in self.plan)]
        return self.r.choice(c) if c else None
    def plain(self, block):
        r = self.r
        x = r.random()
        n = self.free()
        if not n: return
        if x < .2:
            self.emit("type", n, r.randint(9, 60)); self.bind(n, dict(k="type"))
        elif x < .27:
            c = self.visible(["type"])
            if c:
                s = r.choice(c)
                self.emit("typed", n, s); self.bind(n, dict(k="type"))
        elif x < .35:
            c = [m for m in self.names() if self.sizable(m)]
            if c:
                s = n if n in c and r.random() < .6 else r.choice(c)
                self.emit("typen" if not block or r.random() < .4 else "arrn", n, s)
                self.bind(n, dict(k="type") if self.items[-1][0] == "typen" else dict(k="obj", len=1, char=1, link="n"))
        elif x < .5:
            ms, seen = [], set()
            here = dict(self.sc[-1][0])
            for _ in range(r.randint(1, 3)):
                m = self.free()
                if not m or m in seen: continue
                seen.add(m)
                f = r.choice("vvnu")
                if f == "u":
                    # may be the very name being declared: then an outer enumerator
                    c = self.visible(["enum"])
                    if not c: f = "v"
                    else: ms.append(["u", m, m if m in c and r.random() < .5 else r.choice(c)])
                if f == "v": ms.append(["v", m, self.num()])
                if f == "n": ms.append(["n", m, 0])
                self.bind(m, dict(k="enum"))
            if not ms: return
            t = self.free(1) if r.random() < .5 else None
            self.emit("enum", t or "", ms)
            if t: self.tags.append(["enum", 1, -1]); self.bind(t, len(self.tags) - 1, 1)
        elif x < .85: self.tag()
        elif block and x < .9:
            self.emit("tptr", *self.tagref(n)) if self.tagref(n, True) else None
        elif block:
            self.obj(n)
        else: self.tag()
    def sizable(self, m):
        b = self.look(m)
        return b and (b["k"] in ("type", "enum", "tptr", "fptr") or b["k"] == "obj" and b["len"] >= 0)
    def obj(self, n):
        r = self.r
        x = r.random()
        ln = r.choice([0, 0, r.randint(2, 9)])
        if x < .4: self.emit("obj", n, "", 0, self.num(), ln)
        elif x < .7: self.emit("obj", n, "static", r.choice([0, 0, 1]), r.choice([-1, self.num()]), ln)
        elif x < .78: self.emit("objs", n, ln)
        elif x < .88:
            c = [m for m in self.visible(["obj", "enum"]) if m != n and not self.look(m).get("char")]
            if c: self.emit("objc", n, r.choice(c)); ln = 0
            else: self.emit("objs", n, ln)
        else:
            c = [f for f in self.visible(["fun"]) if f != n and self.look(f)["np"] == 0 and self.look(f)["ord"] < (self.order or 0)]
            if c:
                f = r.choice(c)
                self.emit("fptr", n, r.choice(["", "static"]), f)
                self.bind(n, dict(k="fptr", ord=self.look(f)["ord"], link="n"))
                return
            self.emit("objs", n, ln)
        self.bind(n, dict(k="obj", len=ln, link="n"))
    # ---- tags
    def tagref(self, n, test=False):
        """kw tag *n: a visible tag or a new incomplete one"""
        r = self.r
        t = r.choice(POOL)
        i = self.look(t, 1)
        if i is not None and self.tags[i][0] == "enum": return None if test else self.tagref(n)
        if test: return True
        if i is None:
            self.tags.append([r.choice(["struct", "union"]), 0, -1]); i = len(self.tags) - 1
            self.bind(t, i, 1)
        self.bind(n, dict(k="tptr", t=i))
        return self.tags[i][0], t, n
    def tag(self):
        r = self.r
        x = r.random()
        inc = [t for t, i in self.sc[-1][1].items() if not self.tags[i][1]]
        if inc and r.random() < .6: t, i = (lambda t: (t, self.sc[-1][1][t]))(r.choice(sorted(inc)))
        else:
            t = self.free(1)
            if not t: return
            self.tags.append([r.choice(["struct", "union"]), 0, -1]); i = len(self.tags) - 1
            if x < .25:
                self.emit("tfwd", self.tags[i][0], t); self.bind(t, i, 1)
                return
            self.bind(t, i, 1)
        kw = self.tags[i][0]
        if r.random() < .5:
            self.emit("tag", kw, t, r.randint(9, 60))
        else:
            t2 = t if r.random() < .5 else r.choice(POOL)
            j = self.look(t2, 1)
            if j is not None and self.tags[j][0] == "enum": t2, j = t, i
            if j is None:
                self.tags.append([r.choice(["struct", "union"]), 0, -1]); j = len(self.tags) - 1
                self.bind(t2, j, 1)
            self.emit("tagp", kw, t, r.randint(1, 60), self.tags[j][0], t2)
            self.tags[i][2] = j
        self.tags[i][1] = 1
    # ---- statements
    def use(self):
        r = self.r
        x = r.random()
        if x < .45:
            c = [m for m in self.visible(["obj", "enum"]) if not self.look(m).get("char")]
            if c:
                m = r.choice(c)
                self.emit("use", m, "val" if self.look(m)["k"] == "enum" or r.random() < .5 else "inc")
        elif x < .6:
            c = [m for m in self.names() if self.sizable(m)]
            if c: self.emit("use", r.choice(c), "size")
        elif x < .72:
            c = [m for m in self.visible(["fun", "fptr"]) if self.look(m)["ord"] < self.order]
            if c and self.calls > 0:
                self.calls -= 1
                m = r.choice(c)
                self.emit("call", m, [self.num() for _ in range(self.look(m).get("np", 0))])
        elif x < .78:
            n = r.choice(POOL)
            if n not in self.lab:
                self.lab.add(n); self.emit("skip", n)
        elif x < .82: self.emit("memb", r.choice(POOL), self.num())
        elif x < .9:
            c = sorted({t for s in self.sc for t in s[1] if self.tags[self.look(t, 1)][1]})
            if c:
                t = r.choice(c)
                self.emit("usetag", self.tags[self.look(t, 1)][0], t)
        elif x < .96:
            c = sorted({t for s in self.sc for t in s[1] if self.tags[self.look(t, 1)][1] and self.tags[self.look(t, 1)][2] >= 0 and self.tags[self.tags[self.look(t, 1)][2]][1]})
            if c:
                t = r.choice(c)
                self.emit("usep", self.tags[self.look(t, 1)][0], t)
        else:
            c = [m for m in self.visible(["tptr"]) if self.tags[self.look(m)["t"]][1]]
            if c: self.emit("deref", r.choice(c))
    def local_linked(self):
        """extern declarations and function declarations in a block"""
        r = self.r
        n = r.choice(POOL)
        here, vis = self.sc[-1][0].get(n), self.look(n)
        if here and here.get("link", "n") == "n": return
        p = self.plan.get(n) or self.g.ext.get(n)
        if not p or p.get("inline"): return
        if n in self.plan and self.plan[n]["link"] == "i" and not (vis and vis.get("link") == "i"): return
        if n in self.plan and p["k"] == "fptr" or p["k"] == "fptr": return
        if p["k"] == "obj":
            ln = -1 if p["len"] > 0 and r.random() < .5 else p["len"]
            full = ln
            if ln == -1 and vis and vis.get("link", "n") != "n": full = vis["len"]
            self.emit("obj", n, "extern", p["tls"], -1, ln)
            self.bind(n, dict(k="obj", len=full, e=n, link=p["link"]))
        else:
            self.emit("fdecl", n, r.choice(["", "extern"]), 0)
            self.bind(n, dict(k="fun", e=n, ord=p["ord"], np=p["np"], link=p["link"]))
    def block(self, k, depth):
        r = self.r
        for _ in range(k):
            x = r.random()
            if x < .3: self.plain(True)
            elif x < .42: n = self.free(); n and self.obj(n)
            elif x < .5: self.local_linked()
            elif x < .62 and depth:
                kind = r.choice(["open", "open", "for"])
                if kind == "for":
                    n = r.choice(POOL)
                    self.emit("for", n, self.num())
                    self.sc.append(({n: dict(k="obj", len=0, link="n")}, {}))
                else: self.emit("open")
                self.sc.append(({}, {}))
                self.block(r.randint(1, 5), depth - 1)
                self.sc.pop()
                if kind == "for": self.sc.pop()
                self.emit("close" if kind == "open" else "endfor")
            else: self.use()

class World:
    def __init__(self, rng):
        self.r, self.n = rng, 0
        r = rng
        self.common = r.choice([1, 1, 0])
        ntu = r.choice([1, 2, 2, 3])
        names = POOL[:]
        r.shuffle(names)
        self.ext = {}
        for n in names[:r.randint(3, 7)]:
            k = r.choice(["obj", "obj", "fun", "fun", "inl", "fptr"])
            d = r.randrange(ntu)
            if k == "obj":
                tls = int(r.random() < .2)
                self.ext[n] = dict(k="obj", link="e", len=r.choice([0, 0, 1, r.randint(2, 9)]), tls=tls, tu=d, form=r.choice(["def", "tent"]))
            elif k == "fptr": self.ext[n] = dict(k="fptr", link="e", tu=d, ord=None)
            else: self.ext[n] = dict(k="fun", link="e", tu=d, np=r.choice([0, 0, 1, 2]) if k == "fun" else 0, ord=r.random() if k == "fun" else 0.0, id=self.num(), inline=k == "inl", const=k == "inl")
        self.tus = [self.unit(i, ntu) for i in range(ntu)]
    def num(self):
        self.n += 1
        return 100 + self.n
    def params(self, np): return self.r.sample(POOL, np)
    def unit(self, tu, ntu):
        r = self.r
        u = Unit(self, tu)
        plan, seqs = {}, {}
        for n, p in self.ext.items():
            here = p["tu"] == tu
            if not here and p["k"] == "fptr": continue
            if not here and r.random() < .25: continue
            ex = lambda: ["obj", n, "extern", p["tls"], -1, -1 if p["len"] > 0 and r.random() < .4 else p["len"]]
            if p["k"] == "obj":
                tent = lambda: ["obj", n, "", p["tls"], -1, p["len"]]
                s = [ex() for _ in range(r.choice([0, 0, 1, 2]))]
                if here:
                    if p["form"] == "tent" or r.random() < .4: s += [tent() for _ in range(r.choice([1, 1, 2]))]
                    if p["len"] == 1 and r.random() < .5: s.append(["obj", n, "", p["tls"], -1, -1])
                    if p["form"] == "tent" and not any(d[2] == "" for d in s): s.append(tent())
                    r.shuffle(s)
                    if p["form"] == "def":
                        s.insert(r.randint(0, len(s)), ["obj", n, r.choice(["", "", "extern"]), p["tls"], self.num(), p["len"]])
                elif self.common and p["form"] == "tent" and not p["tls"] and r.random() < .4: s.append(tent())
                elif not s: s.append(ex())
                r.shuffle(s)
                if any(d[5] == -1 and d[2] == "" for d in s) and p["len"] != 1: s = [d for d in s if not (d[5] == -1 and d[2] == "")]
            elif p["k"] == "fptr": s = [["fptr", n, ""]]
            elif p["inline"]:
                # inline definitions everywhere or plain declarations; one unit instantiates it
                df = ["fdef", n, "", 1, [], p["id"]]
                if here: s = r.choice([[df, ["fdecl", n, "extern", 1]], [df, ["fdecl", n, "", 0]], [["fdecl", n, "", 0], df], [["fdecl", n, "extern", 0], df], [["fdecl", n, "", 1], df, ["fdecl", n, "extern", 0]],
                                       [["fdef", n, "extern", 1, [], p["id"]]], [["fdef", n, "", 0, [], p["id"]]]])
                else: s = r.choice([[df], [["fdecl", n, "", 1], df], [["fdecl", n, "", 0]], [["fdecl", n, "extern", 0]]])
            else:
                fd = lambda: ["fdecl", n, r.choice(["", "extern"]), 0]
                s = [fd() for _ in range(r.choice([0, 1, 2]))]
                if here: s.insert(r.randint(0, len(s)), ["fdef", n, r.choice(["", "", "extern"]), 0, self.params(p["np"]), p["id"]])
                elif not s: s = [fd()]
            plan[n], seqs[n] = p, s
        for n in r.sample(POOL, r.randint(2, 6)):
            if n in plan: continue
            k = r.choice(["obj", "obj", "fun", "sin", "sin", "sin", "fptr"])
            if k == "obj":
                tls, ln = int(r.random() < .2), r.choice([0, 0, r.randint(2, 9)])
                p = dict(k="obj", link="i", len=ln, tls=tls)
                s = [r.choice([["obj", n, "static", tls, -1, ln], ["obj", n, "extern", tls, -1, r.choice([ln, -1]) if ln else 0]]) for _ in range(r.randint(0, 3))]
                if r.random() < .6 or not s: s.insert(r.randint(0, len(s)), ["obj", n, "static", tls, self.num(), ln])
                s[0] = ["obj", n, "static", tls, s[0][4], ln]
            elif k == "fptr": p, s = dict(k="fptr", link="i", ord=None), [["fptr", n, "static"]]
            else:
                p = dict(k="fun", link="i", np=r.choice([0, 0, 0, 1]), ord=r.random())
                inl = k == "sin"
                mixed = inl and r.random() < .25
                fd = lambda: ["fdecl", n, r.choice(["static", "", "extern"]) if not inl or mixed else "static", int(inl) if not mixed else r.randint(0, 1)]
                s = [fd() for _ in range(r.choice([0, 0, 1, 2]))]
                s.insert(r.randint(0, len(s)), ["fdef", n, r.choice(["static", ""]) if not inl or mixed else "static", int(inl) if not mixed else r.randint(0, 1), self.params(p["np"]), self.num()])
                s[0][2] = "static"
            plan[n], seqs[n] = p, s
        u.plan = plan
        # merge the sequences, with other declarations in between
        todo = [n for n, s in seqs.items() for _ in s]
        r.shuffle(todo)
        pos = {n: 0 for n in seqs}
        for n in todo:
            if r.random() < .5: u.plain(False)
            d = seqs[n][pos[n]]
            pos[n] += 1
            if not u.decl(n, d):              # a function pointer with nothing to point to yet
                f = [m for m in self.r.sample(POOL, len(POOL)) if m not in plan and m not in u.sc[0][0]]
                h = f[0] if f else "h%d" % self.num()
                plan[h] = dict(k="fun", link="i", np=0, ord=0.0)
                u.items.append(["fdef", h, "static", 1, [], self.num()]); u.items.append(["fend"])
                u.bind(h, dict(k="fun", e=h, ord=0.0, np=0, link="i"))
                u.decl(n, d)
            if d[0] == "fptr": plan[n]["ord"] = u.look(n)["ord"]
        if tu == 0:
            plan["main"] = dict(k="fun", link="e", np=0, ord=1e9)
            u.decl("main", ["fdef", "main", "", 0, [], 0])
        # static functions only declared must be defined: the plans always define them
        return u.items

def c_text(items, rng):
    out = ["int printf(const char *, ...);", "#define P(x) printf(\"%d\\n\", (int)(x))"]
    lens, fid = [{}], []
    A = out.append
    def bind(n, l): lens[-1][n] = l
    def ln(n):
        for s in reversed(lens):
            if n in s: return s[n]
        return 0
    for it in items:
        op = it[0]
        if op == "obj":
            _, n, sto, tls, val, l = it
            s = [x for x in (sto, "_Thread_local" if tls else "") if x]
            if len(s) == 2 and rng.random() < .5: s.reverse()
            A("%s int %s%s%s;" % (" ".join(s), n, "" if l == 0 else "[]" if l < 0 else "[%d]" % l, "" if val < 0 else " = %s" % val if l == 0 else " = { %d }" % val))
            bind(n, l)
        elif op == "objs":
            A("int %s = %s;" % (it[1] + ("[%d]" % it[2] if it[2] else ""), "sizeof(%s)" % it[1] if not it[2] else "{ sizeof(%s) }" % it[1])); bind(it[1], it[2])
        elif op == "objc": A("int %s = %s;" % (it[1], it[2] + ("[0]" if ln(it[2]) else ""))); bind(it[1], 0)
        elif op == "arrn": A("char %s[sizeof(%s)];" % (it[1], it[2])); bind(it[1], 1)
        elif op == "typen": A("typedef char %s[sizeof(%s)];" % (it[1], it[2])); bind(it[1], 0)
        elif op == "fptr": A("%s int (*%s)(void) = %s%s;" % (it[2], it[1], rng.choice(["", "&"]), it[3])); bind(it[1], 0)
        elif op in ("fdecl", "fdef"):
            s = [x for x in (it[2], "inline" if it[3] else "") if x]
            if rng.random() < .3: s.reverse()
            n = NP[it[1]] if op == "fdecl" else None
            if op == "fdecl": A("%s int %s(%s);" % (" ".join(s), it[1], ", ".join(["int"] * n) or "void")); bind(it[1], 0)
            else:
                bind(it[1], 0)
                A("%s int %s(%s) {" % (" ".join(s), it[1], ", ".join("int " + p for p in it[4]) or "void"))
                lens.append({p: 0 for p in it[4]}); fid.append(it[5])
        elif op == "fend": A("return %d; }" % fid.pop()); lens.pop()
        elif op == "type": A("typedef char %s[%d];" % (it[1], it[2])); bind(it[1], 0)
        elif op == "typed": A("typedef %s %s;" % (it[2], it[1])); bind(it[1], 0)
        elif op == "enum":
            A("enum %s { %s };" % (it[1], ", ".join(m[1] + {"v": " = %s" % m[2], "n": "", "u": " = %s + 1" % m[2]}[m[0]] for m in it[2])))
            for m in it[2]: bind(m[1], 0)
        elif op == "tag": A("%s %s { char a[%d]; };" % tuple(it[1:]))
        elif op == "tagp": A("%s %s { char a[%d]; %s %s *p; };" % tuple(it[1:]))
        elif op == "tfwd": A("%s %s;" % tuple(it[1:]))
        elif op == "tptr": A("%s %s *%s;" % tuple(it[1:])); bind(it[3], 0)
        elif op == "open":
            lens.append({}); A(rng.choice(["{", "if (1) {", "do {", "(void)({"]))
            fid.append(out[-1])
        elif op == "close":
            lens.pop(); o = fid.pop()
            A({"do {": "} while (0);", "(void)({": "0; });"}.get(o, "}"))
        elif op == "for": A("for (int %s = %d, once_ = 1; once_; once_ = 0) {" % (it[1], it[2])); lens.append({it[1]: 0}); lens.append({})
        elif op == "endfor": A("}"); lens.pop(); lens.pop()
        elif op == "use":
            e = it[1] + ("[0]" if ln(it[1]) and it[2] != "size" else "")
            A("P(%s);" % {"val": e, "inc": "++" + e, "size": "sizeof(%s)" % e}[it[2]])
        elif op == "call": A("P(%s(%s));" % (it[1], ", ".join(map(str, it[2]))))
        elif op == "skip": A("goto %s; P(-1); %s: ;" % (it[1], it[1]))
        elif op == "memb": A("{ struct { int %s; } m_ = { %d }; P(m_.%s); }" % (it[1], it[2], it[1]))
        elif op == "usetag": A("P(sizeof(%s %s));" % tuple(it[1:]))
        elif op == "usep": A("P(sizeof(*((%s %s *)0)->p));" % tuple(it[1:]))
        elif op == "deref": A("P(sizeof(*%s));" % it[1])
        else: assert 0, op
    return "\n".join(out) + "\n"

NP = {}

def symbols(obj):
    """the symbol table of an object file (ELF64, little-endian)"""
    with open(obj, "rb") as f: d = f.read()
    shoff, = struct.unpack_from("<Q", d, 0x28)
    shnum, = struct.unpack_from("<H", d, 0x3c)
    sh = [struct.unpack_from("<IIQQQQIIQQ", d, shoff + 64 * i) for i in range(shnum)]
    out = {}
    for h in sh:
        if h[1] != 2: continue                                   # SHT_SYMTAB
        st = sh[h[6]]
        for o in range(h[4], h[4] + h[5], 24):
            nm, info, oth, ndx, val, size = struct.unpack_from("<IBBHQQ", d, o)
            e = d.index(b"\0", st[4] + nm)
            name = d[st[4] + nm:e].decode("utf-8", "replace")
            ty = {0: "NOTYPE", 1: "OBJECT", 2: "FUNC", 3: "SECTION", 4: "FILE", 5: "OBJECT", 6: "TLS"}.get(info & 15, "?")
            if not name or name[0] in ".$" or name.startswith("return.") or ty in ("SECTION", "FILE"): continue
            if ndx not in (0, 0xfff2) and ndx < shnum and sh[ndx][2] & 0x400: ty = "TLS"       # SHF_TLS
            out.setdefault(name, []).append(dict(size=size, type=ty, bind=["LOCAL", "GLOBAL", "WEAK"][info >> 4], ndx={0: "UND", 0xfff2: "COM"}.get(ndx, ndx)))
    return out

def bad_symbols(want, have):
    """want: [name, local/global, what, need, size]"""
    bad = []
    for n, bind, what, need, size in want:
        s = have.get(n, [])
        d = [x for x in s if x["ndx"] != "UND"]
        if len(s) > 1: bad.append("%s: %d symbols" % (n, len(s))); continue
        if what == "inline":
            if any(x["bind"] == "GLOBAL" for x in d): bad.append("%s: an inline definition is external" % n)
        elif what == "und":
            if d: bad.append("%s: defined, but only declared" % n)
            elif need == "must" and not s: bad.append("%s: no undefined symbol" % n)
        else:
            if need == "must" and not d: bad.append("%s: not defined" % n)
            if need == "never" and d: bad.append("%s: emitted, but not needed" % n)
            for x in d:
                if (x["bind"] == "LOCAL") != (bind == "local"): bad.append("%s: binding %s" % (n, x["bind"]))
                if (x["ndx"] == "COM") != (what == "common"): bad.append("%s: %s, want %s" % (n, "common" if x["ndx"] == "COM" else "not common", what))
                if what == "common" and x["size"] != size: bad.append("%s: size %d, want %d" % (n, x["size"], size))
                if (x["type"] == "TLS") != (what == "tls"): bad.append("%s: type %s" % (n, x["type"]))
                if what == "func" and x["type"] != "FUNC": bad.append("%s: type %s" % (n, x["type"]))
    known = {w[0] for w in want} | {"printf"}
    for n, s in have.items():
        if n not in known and n and any(x["bind"] == "GLOBAL" for x in s): bad.append("%s: unexpected symbol" % n)
    return bad

def run_scopes(ck, label, worlds, seed):
    out = {}
    for line in ck.tlc("ScopeLink", batch=[dict(tus=w.tus, common=w.common) for w in worlds], name="ScopeLink/" + label):
        r = json.loads(line)
        out[r[0]] = r[1:]
    bad = [k for k in out if out[k][0] != "ok"]
    if os.environ.get("VP_VERBOSE"):
        for k in bad[:10]: print("#bad", k, out[k][1])
    if len(out) != len(worlds) or len(bad) > len(worlds) // 3: raise Broken("%d of %d worlds are outside the model" % (len(bad), len(worlds)))
    def one(k):
        if out[k][0] != "ok": return 0
        w = worlds[k-1]
        rng = random.Random(seed * 100003 + k)
        _, trace, syms = out[k]
        d = ck.path(label, str(k))
        os.makedirs(d, exist_ok=True)
        objs, files, who = [], {}, []
        native = [rng.random() < .25 for _ in w.tus]
        if all(native): native[rng.randrange(len(native))] = False
        for i, items in enumerate(w.tus):
            t = c_text_np(items, w, rng)
            files["t%d.c" % i] = t
            with open(os.path.join(d, "t%d.c" % i), "w") as f: f.write(t)
        flag = ["-fcommon"] if w.common else ["-fno-common"]
        key = "%s:%d" % (label, k)
        for i in range(len(w.tus)):
            src, obj = os.path.join(d, "t%d.c" % i), os.path.join(d, "t%d.o" % i)
            if native[i]:
                r = run([XGCC, "-w", "-O0", *flag, "-c", src, "-o", obj], cwd=d)
                if r.rc: raise Broken("gcc rejects %s: %s" % (src, r.err[:500]))
            else:
                r = compile_toycc(ck, src, obj, flag)
                if r.rc:
                    ck.violation(key, "%s program %d: toycc failed on unit %d (rc %d): %s" % (label, k, i, r.rc, r.err[:400]), files)
                    return 1
                b = bad_symbols(syms[i], symbols(obj)) if not SPEC_CHECK else []
                if b:
                    ck.violation(key + ":sym", "%s program %d, unit %d: %s" % (label, k, i, "; ".join(b[:4])), files)
                    return 1
            objs.append(obj)
        exe = os.path.join(d, "t")
        r = run([XGCC, "-static", "-o", exe, *objs], timeout=120)
        if r.rc:
            ck.violation(key, "%s program %d does not link: %s" % (label, k, r.err[:400]), files)
            return 1
        r = qemu(exe, timeout=20)
        want = "".join("%d\n" % v for v in trace)
        if r.rc != 0 or r.out != want:
            g, x = r.out.split(), want.split()
            i = next((i for i in range(max(len(g), len(x))) if i >= len(g) or i >= len(x) or g[i] != x[i]), -1)
            ck.violation(key, "%s program %d (units by gcc: %s): rc %d, output line %d" % (label, k, [i for i in range(len(native)) if native[i]], r.rc, i + 1), files,
                         "want %s\ngot  %s" % (x[max(0, i-3):i+5], g[max(0, i-3):i+5]))
        elif k % 400 == 1: ck.sample(dict(program=files, expected=trace[:30]))
        shutil.rmtree(d, ignore_errors=True)
        return 1
    n = sum(pmap(one, sorted(out)))
    ck.traces += n
    ck.extra.setdefault("scopes", {})[label] = dict(programs=n, outside=len(bad), units=sum(len(w.tus) for w in worlds), printed=sum(len(out[k][1]) for k in out if out[k][0] == "ok"))

import shutil, threading
_lock = threading.Lock()
def c_text_np(items, w, rng):
    # parameter counts of the functions a unit declares: its own definitions, else the external ones
    with _lock:
        NP.clear()
        NP.update({n: p["np"] for n, p in w.ext.items() if p["k"] == "fun"})
        NP.update({it[1]: len(it[4]) for it in items if it[0] == "fdef"})
        return c_text(items, rng)
