"""C15: random C programs as token lists, single mutations, and random line structure around them."""
import random, re, shutil
from lib import *
import pp
from pp import World, T

class Gen:
    """typed random programs; validity is the specification's business"""
    def __init__(self, rng):
        self.r, self.n = rng, 0
        self.glob, self.fns, self.tags, self.tds, self.enums = [], [], [], [], []
        self.loc, self.loop, self.sw, self.labels, self.ret = [], 0, 0, [], "i"
    def fresh(self, p):
        self.n += 1
        return "%s%d" % (p, self.n)
    def pick(self, kinds):
        c = [v for v in self.glob + self.loc * 2 if v[1] in kinds]
        return self.r.choice(c) if c else None
    # ---- expressions
    def num(self): return [str(self.r.choice([0, 1, 2, 3, 5, 7, 10, 42]))]
    def const(self, d=2):
        x = self.r.random()
        if d == 0 or x < .45: return self.num()
        if x < .55 and self.enums: return [self.r.choice(self.enums)]
        if x < .8: return self.const(d-1) + [self.r.choice("+ - * | & ^ << < == != && || >=".split())] + self.const(d-1)
        if x < .87: return ["("] + self.const(d-1) + [")"]
        if x < .92: return ["sizeof", "(", "int", ")"]
        if x < .96: return ["'a'"]
        return ["("] + self.const(0) + ["?"] + self.const(d-1) + [":"] + self.const(d-1) + [")"]
    def lval(self, d=2):
        k = self.r.choice(["i", "i", "i", "c", "a", "pi", "s", "ps", "m"])
        v = self.pick([k])
        if not v: v = self.pick(["i"])
        if not v: return None
        if v[1] in ("i", "c"): return [v[0]]
        if v[1] == "a": return [v[0], "["] + self.ie(d-1) + ["]"]
        if v[1] == "m": return [v[0], "["] + self.ie(d-1) + ["]", "["] + self.num() + ["]"]
        if v[1] == "pi": return ["*", v[0]] if self.r.random() < .5 else [v[0], "["] + self.num() + ["]"]
        m = [m for m in v[2]["mem"] if m[1] in ("i", "c", "b")]
        if not m: return None
        return [v[0], "." if v[1] == "s" else "->", self.r.choice(m)[0]]
    def ie(self, d=3):
        """an arithmetic expression"""
        x = self.r.random()
        if d <= 0 or x < .15: return self.num()
        if x < .4:
            l = self.lval(d)
            if l and (l[0] != "*" or 1): return ["("] + l + [")"] if l[0] == "*" and self.r.random() < .5 else l
            return self.num()
        if x < .62: return self.ie(d-1) + [self.r.choice("+ - * / % & | ^ << >> < > <= >= == != && ||".split())] + self.ie(d-1)
        if x < .70: return [self.r.choice(["-", "!", "~", "+"])] + ["("] + self.ie(d-1) + [")"]
        if x < .76: return ["("] + self.ie(d-1) + [")"]
        if x < .80: return ["("] + self.ie(d-1) + ["?"] + self.ie(d-1) + [":"] + self.ie(d-1) + [")"]
        if x < .86 and self.fns: return self.call(d)
        if x < .89: return ["(", self.r.choice(["int", "char", "long", "double"] + self.tds), ")"] + ["("] + self.ie(d-1) + [")"]
        if x < .92:
            l = self.lval(d)
            if l: return ["sizeof"] + (["("] + l + [")"] if l[-1][0] != "b" else ["(", "int", "*", ")"])
            return self.num()
        if x < .95:
            l = self.lval(d)
            if l: return self.r.choice([["++", "("] + l + [")"], ["("] + l + [")", "--"]])
            return self.num()
        if x < .98:
            l = self.lval(d)
            return ["("] + l + [self.r.choice(["=", "+=", "-=", "|=", "<<="])] + self.ie(d-1) + [")"] if l else self.num()
        return self.r.choice([['"abc"', "[", "1", "]"], ["1.5"], ["'x'"]])
    def pe(self, d=2):
        """an int * expression"""
        v = self.pick(["pi", "a", "i"])
        if not v: return ["0"]
        if v[1] == "i": return ["&", v[0]]
        return [v[0]] if self.r.random() < .6 else [v[0], self.r.choice("+-")] + self.num()
    def call(self, d):
        f = self.r.choice(self.fns)
        a = [self.pe(d-1) if p == "p" else self.ie(d-1) for p in f[1]]
        if f[2]: a += [self.ie(0) for _ in range(self.r.randint(0, 2))]
        o = [f[0], "("]
        for i, e in enumerate(a): o += ([","] if i else []) + e
        return o + [")"]
    # ---- declarations
    def struct_mem(self):
        mem, o = [], []
        for _ in range(self.r.randint(1, 3)):
            n = self.fresh("m"); x = self.r.random()
            if x < .5: mem.append((n, "i")); o += ["int", n, ";"]
            elif x < .65: mem.append((n, "c")); o += [self.r.choice(["char", "short", "unsigned"]), n, ";"]
            elif x < .8: mem.append((n, "a")); o += ["int", n, "[", str(self.r.randint(1, 4)), "]", ";"]
            elif x < .9: n = self.fresh("b"); mem.append((n, "b")); o += ["int", n, ":", str(self.r.randint(1, 7)), ";"]
            else: mem.append((n, "p")); o += ["int", "*", n, ";"]
        return mem, o
    def init(self, kind, st, tag=None):
        c = (lambda: self.const(1)) if st else (lambda: self.ie(1))
        if kind in ("i", "c"): return ["="] + c()
        if kind == "a":
            o = ["=", "{"]
            for i in range(self.r.randint(1, 3)):
                o += ([","] if i else []) + (["[", str(self.r.randint(0, 2)), "]", "="] if self.r.random() < .25 else []) + c()
            return o + self.r.choice([[], [","]]) + ["}"]
        if kind == "s":
            o, first = ["=", "{"], True
            for m in tag["mem"]:
                if self.r.random() < .5 and m[1] in ("i", "c", "b"):
                    o += ([] if first else [","]) + [".", m[0], "="] + c(); first = False
            return o + (c() if first and tag["mem"][0][1] != "p" else ["0"] if first else []) + ["}"]
        return []
    def var(self, st):
        """a declaration; st: static storage duration"""
        x = self.r.random(); out = []
        kind = self.r.choice(["i", "i", "i", "c", "d", "pi", "a", "m", "s", "ps"])
        n = self.fresh("v"); tag = None
        pre = ["static"] if st is None else []
        s = st is not False
        if kind in ("s", "ps") and not self.tags: kind = "i"
        if kind == "i": o = [[self.r.choice(["int", "long", "unsigned", "short", "_Bool"] + self.tds)], ["unsigned", "long"], ["int"]][self.r.choice([0, 0, 1, 2, 2])] + [n]
        elif kind == "c": o = ["char", n]
        elif kind == "d": o = ["double", n]
        elif kind == "pi": o = ["int", "*", n]
        elif kind == "a": o = ["int", n, "[", str(self.r.randint(3, 6)), "]"]
        elif kind == "m": o = ["int", n, "[", "2", "]", "[", "3", "]"]
        else:
            tag = self.r.choice(self.tags)
            o = [tag["kw"], tag["name"]] + (["*"] if kind == "ps" else []) + [n]
        if self.r.random() < .5:
            if kind in ("i", "c", "a"): o += self.init(kind, s)
            elif kind == "s" and tag["kw"] == "struct": o += self.init(kind, s, tag)
            elif kind == "pi" and not s: o += ["="] + self.pe(1)
            elif kind == "d": o += ["="] + self.r.choice([["1.5"], self.const(0)])
        (self.glob if st is True else self.loc).append((n, kind, tag))
        if kind == "i" and self.r.random() < .25 and o[0] == "int":
            n2 = self.fresh("v"); o += [",", "*", n2]; (self.glob if st is True else self.loc).append((n2, "pi", None))
        return pre + o + [";"]
    def external(self):
        x = self.r.random()
        if x < .12:
            n = self.fresh("S"); mem, o = self.struct_mem(); kw = self.r.choice(["struct", "struct", "union"])
            self.tags.append(dict(kw=kw, name=n, mem=mem))
            if self.r.random() < .3:
                v = self.fresh("v"); self.glob.append((v, "s", self.tags[-1])); return [kw, n, "{"] + o + ["}", v, ";"]
            return [kw, n, "{"] + o + ["}", ";"]
        if x < .18:
            t = self.fresh("T"); o = ["typedef", self.r.choice(["int", "long", "char"]), t, ";"]; self.tds.append(t); return o
        if x < .26:
            o = ["enum"] + self.r.choice([[], [self.fresh("E")]]) + ["{"]
            for i in range(self.r.randint(1, 3)):
                n = self.fresh("K"); o += ([","] if i else []) + [n] + (["="] + self.const(1) if self.r.random() < .4 else []); self.enums.append(n)
            return o + ["}", ";"]
        if x < .36:
            n = self.fresh("f"); ps = [self.r.choice("iip") for _ in range(self.r.randint(0, 3))]; va = bool(ps) and self.r.random() < .2
            o = ["int", n, "("]
            for i, p in enumerate(ps): o += ([","] if i else []) + ["int"] + (["*"] if p == "p" else []) + self.r.choice([[], ["q%d" % i]])
            self.fns.append((n, ps, va))
            return o + (["void"] if not ps else []) + ([",", "..."] if va else []) + [")", ";"]
        if x < .55: return self.var(True)
        return self.func()
    def func(self):
        n = self.fresh("f"); ps = [self.r.choice("iip") for _ in range(self.r.randint(0, 3))]
        self.loc, self.loop, self.sw, self.labels = [], 0, 0, []
        o = (["static"] if self.r.random() < .2 else []) + ["int", n, "("]
        for i, p in enumerate(ps):
            a = self.fresh("a"); o += ([","] if i else []) + (["int", "*", a] if p == "p" else ["int", a]); self.loc.append((a, "pi" if p == "p" else "i", None))
        self.fns.append((n, ps, False))
        o += (["void"] if not ps else []) + [")", "{"]
        lab = self.fresh("L") if self.r.random() < .25 else None
        if lab and self.r.random() < .5: self.labels.append(lab)
        for _ in range(self.r.randint(1, 5)): o += self.item(3)
        if lab: o += [lab, ":", ";"]; self.labels.append(lab)
        for _ in range(self.r.randint(0, 2)): o += self.item(2)
        o += ["return"] + self.ie(2) + [";", "}"]
        self.loc = []
        return o
    def item(self, d):
        if self.r.random() < .3: return self.var(False if self.r.random() < .85 else None)
        return self.stmt(d)
    def block(self, d):
        k = len(self.loc); o = ["{"]
        for _ in range(self.r.randint(0, 3)): o += self.item(d-1)
        del self.loc[k:]
        return o + ["}"]
    def body(self, d): return self.block(d) if self.r.random() < .6 else self.stmt(d-1)
    def stmt(self, d):
        x = self.r.random()
        if d <= 0 or x < .35:
            l = self.lval()
            if l and self.r.random() < .7: return l + [self.r.choice(["=", "=", "+=", "*=", "^="])] + self.ie(2) + [";"]
            return self.ie(3) + [";"] if self.r.random() < .8 else self.ie(1) + [","] + self.ie(1) + [";"]
        if x < .48:
            c = ["if", "("] + self.ie(2) + [")"]
            b = self.block(d)
            return c + b + (["else"] + self.body(d) if self.r.random() < .4 else [])
        if x < .58:
            self.loop += 1; o = ["while", "("] + self.ie(2) + [")"] + self.body(d); self.loop -= 1; return o
        if x < .64:
            self.loop += 1; b = self.body(d); self.loop -= 1; return ["do"] + b + ["while", "("] + self.ie(1) + [")", ";"]
        if x < .74:
            k = len(self.loc); o = ["for", "("]
            if self.r.random() < .5: n = self.fresh("i"); o += ["int", n, "=", "0", ";"]; self.loc.append((n, "i", None))
            else: o += (self.ie(1) if self.r.random() < .5 else []) + [";"]
            o += (self.ie(1) if self.r.random() < .8 else []) + [";"] + (self.ie(1) if self.r.random() < .8 else []) + [")"]
            self.loop += 1; o += self.body(d); self.loop -= 1
            del self.loc[k:]
            return o
        if x < .84:
            self.sw += 1; o = ["switch", "("] + self.ie(1) + [")", "{"]
            for i in range(self.r.randint(1, 3)):
                o += ["case"] + [str(i)] + [":"] + self.stmt(d-1)
                if self.r.random() < .6: o += ["break", ";"]
            if self.r.random() < .5: o += ["default", ":"] + self.stmt(d-1)
            self.sw -= 1
            return o + ["}"]
        if x < .9 and (self.loop or self.sw): return [self.r.choice(["break", "continue"] if self.loop else ["break"]), ";"]
        if x < .93 and self.labels: return ["goto", self.r.choice(self.labels), ";"]
        if x < .96: return ["return"] + self.ie(1) + [";"]
        if x < .98: return [";"]
        return self.block(d)
    def program(self, n):
        o = []
        for _ in range(n): o += self.external()
        return o

PUN = "( ) { } [ ] ; , . -> + - * / % & | ^ ~ ! = == != < > <= >= && || << >> ++ -- += -= ? :".split()
KW = "int char long short void double struct union enum typedef static extern if else while for do switch case default break continue return goto sizeof unsigned signed const".split()
def mutate(rng, ts, names):
    """one change of one token, anywhere"""
    ts = list(ts); x = rng.random(); i = rng.randrange(len(ts))
    ids = [k for k, t in enumerate(ts) if re.match(r"[A-Za-z]+\d", t)]
    calls = [k for k in range(1, len(ts) - 1) if re.match(r"f\d+$", ts[k]) and ts[k+1] == "(" and ts[k-1] not in ("int", "*")]
    if x < .05 and calls:                       # one argument more or less
        k = rng.choice(calls) + 2; j, dp = k, 0
        while j < len(ts) and (dp or ts[j] not in (",", ")")):
            dp += (ts[j] in "([{") - (ts[j] in ")]}"); j += 1
        if rng.random() < .6 and j < len(ts): del ts[k:j + (ts[j] == ",")]
        else: ts[k:k] = ["1"] + ([","] if ts[k] != ")" else [])
    elif x < .10:                               # a jump or label where it may not belong
        semi = [k for k, t in enumerate(ts) if t in (";", "}")]
        if semi:
            k = rng.choice(semi)
            ts[k+1:k+1] = rng.choice([["break", ";"], ["continue", ";"], ["continue", ";"], ["case", "3", ":", ";"], ["default", ":", ";"]])
    elif x < .25: del ts[i]
    elif x < .33: ts.insert(i, ts[i])
    elif x < .40 and i + 1 < len(ts): ts[i], ts[i+1] = ts[i+1], ts[i]
    elif x < .50: ts.insert(i, rng.choice(PUN))
    elif x < .56: ts.insert(i, rng.choice(KW))
    elif x < .62: ts[i] = rng.choice(PUN)
    elif x < .66: ts[i] = rng.choice(KW)
    elif x < .74 and ids: ts[rng.choice(ids)] = rng.choice(["undeclared", "nope", "zz9"])
    elif x < .86 and ids: ts[rng.choice(ids)] = ts[rng.choice(ids)]
    elif x < .90:
        op = [k for k, t in enumerate(ts) if t in PUN[9:]]
        if op: ts[rng.choice(op)] = rng.choice(PUN[9:])
    elif x < .91: ts.insert(i, rng.choice(["1", "2.5", '"str"', "'c'"]))
    elif x < .93:
        j = min(len(ts), i + rng.randint(1, 6)); del ts[i:j]
    else:
        semi = [k for k, t in enumerate(ts) if t == ";"]
        if semi:
            k = rng.choice(semi)
            ts[k+1:k+1] = rng.choice([["break", ";"], ["continue", ";"], ["case", "3", ":", ";"], ["default", ":", ";"], ["goto", "nowhere", ";"], ["dup", ":", "dup", ":", ";"],
                                      ["return", "undeclared", ";"], ["else", ";"], ["int", "v0", "[", "]", ";"], ["void", "v0", ";"], ["struct", "Never", "v0", ";"],
                                      ["switch", "(", "1.5", ")", ";"], ["switch", "(", '"s"', ")", ";"], ["1", "=", "2", ";"], ["*", "3", ";"], ["f0", "(", ")", ";"], ["(", "3", ")", "(", ")", ";"],
                                      ["enum", "Nope", "v0", ";"], ["int", "char", "v0", ";"], ["static", "typedef", "int", "v0", ";"], ["int", "v0", "[", "1", "/", "0", "]", ";"],
                                      ["{", "int", "v8", "(", "int", ",", "int", ",", "...", ")", ";", "v8", "(", "1", ")", ";", "}"], ["{", "int", "v8", "(", "int", ",", "...", ")", ";", "v8", "(", ")", ";", "}"], ["++", "1", ";"], ["{", "int", "v8", ";", "(", "v8", "=", "1", ")", "=", "2", ";", "}"], ["{", "int", "v8", ";", "(", "v8", "?", "v8", ":", "v8", ")", "+=", "2", ";", "}"], ["{", "int", "v8", ";", "++", "v8", "--", ";", "}"], ["{", "int", "v8", ";", "&", "(", "v8", "=", "3", ")", ";", "}"], ["&", "1", ";"], ["static", "int", "v0", "=", "zz", ";"], ["{", "int", "v8", ";", "static", "int", "v9", "=", "v8", ";", "}"],
                                      ["{", "int", "v8", "=", "2", ";", "int", "v9", "[", "v8", "]", "=", "{", "1", "}", ";", "}"], ["(", "int", "v0", ")", "1", ";"], ["sizeof", "(", "static", "int", ")", ";"],
                                      ["{", "struct", "{", "int", "a", ":", "3", ";", "}", "v8", ";", "&", "v8", ".", "a", ";", "}"], ["{", "int", "v8", ";", "v8", ".", "x", ";", "}"],
                                      ["{", "void", "*", "v8", "=", "0", ";", "*", "v8", ";", "}"], ["{", "int", "v8", "[", "3", "]", "=", "{", "[", "3", "]", "=", "1", "}", ";", "}"],
                                      ["{", "int", "v8", "=", "1", ";", "switch", "(", "1", ")", "{", "case", "v8", ":", ";", "}", "}"],
                                      ["{", "int", "v8", "[", "3", "]", ",", "v9", "[", "3", "]", ";", "v8", "=", "v9", ";", "}"],
                                      ["int", "v0", "(", "int", "a", ")", ";"], ["{", "struct", "Q9", "{", "int", "a", ";", "}", "v8", "=", "{", ".", "b", "=", "1", "}", ";", "}"]])
    return ts

def kind(t):
    return pp.lex(t)[0][0]
def tok(t, sp=1): return [kind(t), t, sp]

def balanced(sl):
    d = 0
    for t in sl:
        if t in "([{" : d += 1
        if t in ")]}": d -= 1
        if d < 0: return False
    return d == 0

def layout(rng, ts, plain=False):
    """the token list as a world: lines, macros, includes, #line, comments, skipped groups"""
    w = World(); w.syn = 1; w.rng = random.Random(rng.random())
    dens = rng.choice([.02, .1, .25, .6])
    defs, hdrs, nm = [], [], [0]
    def emit(ts, depth):
        L, cur = [], []
        def flush():
            if cur: L.append([t for t in cur]); cur.clear()
        i = 0
        while i < len(ts):
            x = rng.random()
            if not plain and x < .03:
                k = min(len(ts), i + rng.randint(1, 8)); sl = ts[i:k]
                nm[0] += 1; m = "MAC%d" % nm[0]
                if rng.random() < .5 and balanced(sl) and "," not in sl and "(" not in sl and not set(sl) & set("{}"):
                    how = rng.choice(["a", "x"])
                    flush(); L.append(T("#define %s(%s) %s" % (m, "p", "p")) if how == "a" else T("#define %s(p, ...) p __VA_ARGS__" % m))
                    cur.append(tok(m)); cur.append(["p", "(", 0])
                    for t in sl:
                        if rng.random() < .2: flush()
                        cur.append(tok(t))
                    cur.append(tok(")"))
                else:
                    flush()
                    L.append(T("#define %s" % m) + [tok(t) for t in sl])
                    if rng.random() < .3: L.append(rng.choice(["", "// x", []]))
                    cur.append(tok(m))
                i = k; continue
            if not plain and x < .036 and kind(ts[i]) == "i" and len(ts[i]) > 1:
                nm[0] += 1; m = "PST%d" % nm[0]
                flush(); L.append(T("#define %s(p, q) p ## q" % m)); cur.extend([tok(m), ["p", "(", 0], tok(ts[i][:1]), tok(","), tok(ts[i][1:]) if kind(ts[i][1:]) in "in" else tok(ts[i][1:]), tok(")")])
                i += 1; continue
            if not plain and x < .045:
                flush(); y = rng.random()
                if y < .3: L += [T("#if 0"), T("junk ( ' \" #".replace("' \"", "")), T("#else"), T("#endif")]
                elif y < .5: L.append(T("#line %d" % rng.randint(1, 3000)))
                elif y < .65: L.append(T('#line %d "%s"' % (rng.randint(1, 3000), rng.choice(["foo.c", "bar.h"]))))
                elif y < .8: L.append("/* a\n comment\n*/")
                elif y < .9: L.append("// a \\\n comment")
                else: L += [T("#pragma nothing"), T("#ifndef NOPE"), T("#define NOPE2 1"), T("#endif"), []]
            if not plain and x > .985 and depth < 2:
                k = min(len(ts), i + rng.randint(3, 40)); flush()
                h = "h%d.h" % len(hdrs); hdrs.append(None); j = len(hdrs) - 1
                hdrs[j] = (h, emit(ts[i:k], depth + 1))
                L.append(T("#include") + [w.header('"%s"' % h)])
                i = k; continue
            cur.append(tok(ts[i], 0 if rng.random() < .4 else 1)); i += 1
            if rng.random() < dens:
                flush()
                for _ in range(rng.choice([0, 0, 0, 1, 2])): L.append([])
        flush()
        return L
    L = emit(ts, 0)
    w.file("main.c", L or [[]])
    for h, hl in hdrs: w.file(h, hl or [[]])
    w.splice = rng.random() < .3
    return w

def worlds(rng, n, mut=.6):
    out = []
    for k in range(n):
        g = Gen(rng); ts = g.program(rng.choice([2, 3, 4, 6]))
        if not ts: continue
        if rng.random() < mut:
            ts = mutate(rng, ts, None)
            if rng.random() < .1 and ts: ts = mutate(rng, ts, None)
        if not ts: continue
        out.append(layout(rng, ts, rng.random() < .15))
    return out

def run_syn(ck, label, ws):
    for w in ws: w.layout(w.rng)
    seen = {}
    B = 600
    for b in range(0, len(ws), B):
        for r in ck.tlc("Preproc", batch=[w.model() for w in ws[b:b+B]], name="Preproc+CSyn/%s/%d" % (label, b//B)):
            k, st, _, _, at = json.loads(r)
            seen[b+k] = (st, {"%s:%d:" % tuple(a) for a in at})
    if len(seen) != len(ws): raise Broken("model gave %d results for %d programs" % (len(seen), len(ws)))
    stats = {}
    for st, _ in seen.values(): st = re.sub(r"(undeclared|no member) .*", r"\1", st); stats[st] = stats.get(st, 0) + 1
    todo = [k for k in sorted(seen) if seen[k][0] == "valid" or (not seen[k][0].startswith("open") and seen[k][0] not in pp.DISCARD)]
    def do(k):
        w, (st, at) = ws[k-1], seen[k]
        d = os.path.dirname(ck.path("%s/%d/x" % (label, k))); w.write(d)
        if os.environ.get("VP_SPEC_CHECK"):
            r = run([XGCC, "-std=gnu2x", "-w", "-fpermissive", "-S", "-o", "out.o", "-ftrack-macro-expansion=0", w.base], cwd=d)
        else:
            r = run([ck.toycc, "-c" if st == "valid" else "-S", "-o", "out.o", w.base], cwd=d, env=toycc_env(), timeout=20)
        left = os.path.exists(d + "/out.o")
        shutil.rmtree(d, ignore_errors=True)
        if st == "valid":
            return None if r.rc == 0 else "a valid program is rejected (rc %d): %s" % (r.rc, r.err[-300:])
        why = pp.rejection(r, st, at, d)
        return why or ("rejected, but output is left" if left else None)
    for k, why in zip(todo, pmap(do, todo)):
        if why:
            w = ws[k-1]
            ck.violation("%s:%d" % (label, k), "%s program %d: %s" % (label, k, why), dict({f["spelled"]: f["text"] for f in w.files}, **{"expected.txt": "%s %s" % (seen[k][0], sorted(seen[k][1]))}), w.show())
    ck.traces += len(todo)
    ck.extra.setdefault("programs", {})[label] = dict(generated=len(ws), judged=len(todo), outcomes=stats)
    if todo: ck.sample(dict(program=ws[todo[0]-1].show()[:1500], expected=seen[todo[0]][0]))
