"""Random macro sets and texts for C08."""
from pp import *

PLAIN = ["a", "b", "c", "k1", "zz"]
PUN = ["+", "-", "*", "<", ">", "=", "&", "|", "!", ";", "[", "]", ".", "/", "%", "^", "?", ":", "~", "{", "}"]

class G:
    def __init__(self, rng, size):
        self.rng = rng
        self.names = rng.sample(["A", "B", "C", "D", "E", "F", "G", "H", "M", "N", "foo", "bar", "x", "a1", "int", "if"], rng.randint(2, 7))
        self.info = {}          # name -> ("o",) or ("f", nparams, variadic)
        self.size = size
        self.line = rng.random() < .3
    def tok(self, par=(), depth=0):
        r = self.rng; x = r.random(); sp = r.random() < .55
        if par and x < .35: return [["i", r.choice(par), int(sp)]]
        if x < .5: return [["i", r.choice(PLAIN), int(sp)]]
        if x < .62: return [["n", r.choice(["1", "2", "30", "0x1f", "1.5", "7e", "0"]), int(sp)]]
        if x < .67: return [["s", r.choice(['"s"', '"q\\"r"', '"\\\\n"', '""', "'a'", "'\\''", "'\"'"]), int(sp)]]
        if x < .80: return [["p", r.choice(PUN), int(sp)]]
        if x < .83 and depth < 3:
            return [["p", "(", int(sp)]] + self.seq(r.randint(0, 3), par, depth + 1, comma=.3) + [["p", ")", int(r.random() < .3)]]
        return self.use(par, depth, sp)
    def seq(self, n, par=(), depth=0, comma=0.0):
        out = []
        for _ in range(n):
            if self.rng.random() < comma and out: out.append(["p", ",", int(self.rng.random() < .2)])
            out += self.tok(par, depth)
        return out
    def use(self, par, depth, sp):
        """a macro name, perhaps with arguments"""
        r = self.rng
        nm = r.choice(self.names)
        out = [["i", nm, int(sp)]]
        k = self.info.get(nm)
        if depth < 3 and (k and k[0] == "f" and r.random() < .85 or r.random() < .06):
            n, va = (k[1], k[2]) if k and k[0] == "f" else (r.randint(0, 2), 0)
            out.append(["p", "(", int(r.random() < .15)])
            cnt = n + (r.choice([0, 0, 1, 2, 3]) if va else 0)
            if r.random() < .01: cnt = max(0, cnt + r.choice([-1, 1]))
            for i in range(cnt):
                if i: out.append(["p", ",", int(r.random() < .15)])
                out += self.seq(r.choice([0, 1, 1, 1, 2, 3]), par, depth + 1)
            out.append(["p", ")", int(r.random() < .2)])
        return out
    def pasteable(self, par):
        r = self.rng
        if par and r.random() < .7: return ["i", r.choice(par), int(r.random() < .5)]
        return r.choice([["i", "a", 1], ["i", "k", 0], ["n", "1", 1], ["i", r.choice(self.names), 1], ["n", "2", 0]])
    def body(self, par, kind, va):
        r = self.rng; out = []
        for _ in range(r.choice([0, 1, 1, 2, 2, 3, 4, 5])):
            x = r.random()
            if kind == "f" and par and x < .15:
                out += [["p", "#", int(r.random() < .5)], ["i", r.choice(par), int(r.random() < .2)]]
            elif x < .34:
                ch = [self.pasteable(par)]
                for _ in range(r.choice([1, 1, 1, 2])):
                    ch += [["p", "##", int(r.random() < .5)], self.pasteable(par)]
                out += ch
            elif va and x < .46 and not os.environ.get('VP_SPEC_CHECK'):
                out += self.seq(1, par, 1)
                out += [["p", ",", int(r.random() < .3)], ["p", "##", int(r.random() < .5)], ["i", va, int(r.random() < .5)]]
            elif va and x < .58:
                out += [["i", "__VA_OPT__", 1], ["p", "(", 0]] + self.seq(r.randint(0, 2), par, 2) + [["p", ")", 0]]
            else:
                out += self.tok(par, 1)
        if out and out[0][1] == "##": out = out[1:]
        return out
    def define(self, nm):
        r = self.rng
        line = [["p", "#", 0], ["i", "define", int(r.random() < .2)], ["i", nm, 1]]
        if r.random() < .4:
            self.info[nm] = ("o",)
            b = self.body((), "o", None)
        else:
            n = r.choice([0, 1, 1, 2, 2, 3]); par = r.sample(["x", "y", "z", "a"], n); va = None
            if r.random() < .3: va = r.choice(["__VA_ARGS__", "__VA_ARGS__", "rest"])
            self.info[nm] = ("f", n, 1 if va else 0)
            line.append(["p", "(", 0])
            ps = [[["i", p, int(r.random() < .3)]] for p in par]
            if va == "__VA_ARGS__": ps.append([["p", "...", 1]])
            elif va: ps.append([["i", va, 1], ["p", "...", 0]])
            for i, p in enumerate(ps):
                if i: line.append(["p", ",", 0])
                line += p
            line.append(["p", ")", 0])
            b = self.body(tuple(par) + ((va,) if va else ()), "f", va)
        if b: b[0][2] = 1
        return line + b

def mac_world(rng):
    w = World(); w.rng = random.Random(rng.random())
    g = G(rng, 0)
    w.splice = not g.line
    lines = []
    for nm in g.names: g.info[nm] = ("o",)
    ds = [g.define(nm) for nm in g.names]
    # redo the bodies now that all the shapes are known
    lines += [g.define(nm) for nm in g.names]
    strz = rng.random() < .6
    if strz:
        lines.append(T("#define STR(x) #x")); lines.append(T("#define XSTR(x) STR(x)"))
        lines.append(T("#define XVSTR(...) XSTRV(__VA_ARGS__)")); lines.append(T("#define XSTRV(...) #__VA_ARGS__"))
    has_empty = rng.random() < .5
    if has_empty:
        lines.append(T("#define EMPTY")); lines.append(T("#define HASH #"))
    if g.line:
        for t in ["#define LN __LINE__", "#define LN2(x) x @x x".replace("@", "#"), "#define CAT_(a, b) a##b", "#define CAT(a, b) CAT_(a, b)"]: lines.append(T(t))
    for _ in range(rng.randint(3, 9)):
        x = rng.random()
        if x < .12:
            lines.append(g.define(rng.choice(g.names)))
        elif x < .20 and has_empty:
            t = rng.choice(["EMPTY", "ok EMPTY", "EMPTY EMPTY", "HASH define A 9", "EMPTY # define B 8", "HASH HASH", "EMPTY() x", "ok EMPTY end"])
            lines.append(T(t))
            if rng.random() < .5: lines.append(T("#"))
        elif x < .26 and g.line:
            lines.append(T("= " + rng.choice(["__LINE__", "__FILE__", "__COUNTER__", "LN", "__LINE__ __LINE__ + LN", "LN2(__LINE__)", "LN2(LN)", "LN2(__COUNTER__)", "__COUNTER__ __COUNTER__", "CAT(v, __LINE__)", "CAT(w, __COUNTER__)", "__BASE_FILE__"])))
            if rng.random() < .5: lines.append("")
        elif x < .28:
            nm = rng.choice(g.names); lines.append(T("#undef " + nm))
        else:
            use = g.use((), 0, 1) if rng.random() < .8 else g.seq(rng.randint(1, 4))
            if strz and rng.random() < .6:
                mac = rng.choice(["XVSTR", "XVSTR", "XSTR", "STR"])
                pre, post = rng.choice([("[", "]"), ("a ", " b"), ("", ""), ("-", "-"), ("EMPTY ", " ]"), ("[", " EMPTY]"), ("EMPTY", "EMPTY")])
                use = T(mac + "(" + pre.strip()) + use + (T(post.strip(), 1 if post[:1] == " " else 0)) + T(")")
                # spacing right after pre
                use[len(T(mac + "(" + pre.strip()))][2] = 1 if pre[-1:] == " " else int(rng.random() < .3)
            use = T(rng.choice(["<<", "ok", "1", "-", "="])) + use + T(rng.choice([";", "end", "+"]), 1)
            # sometimes spread over lines
            if len(use) > 3 and rng.random() < .25 and not g.line:
                k = rng.randint(1, len(use) - 1)
                if use[k][1] != "#":
                    lines.append(use[:k]); lines.append(use[k:]); continue
            lines.append(use)
    lines.append(T("fin"))
    w.file("main.c", lines)
    return w
