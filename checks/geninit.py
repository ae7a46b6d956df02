"""Objects with initialisers for CInit.tla, and their replay on toycc."""
import json
from lib import *
from cprog import *

NOLEN = 100000
PI, PC = ["p", I32], ["p", I8]
LEAF = [BOOL, I8, U8, I16, U16, I32, I32, I32, U32, I64, U64, F32, F64, F128, PI, PC]

class Obj:
    def __init__(self, rng, auto):
        self.rng, self.auto = rng, auto
        self.pr = Prog()
        self.svars = []             # (tag type, leaves)
        self.nm = 0
    # ---- types
    def name(self):
        self.nm += 1
        return "m%d" % self.nm
    def tag(self, d, anon=False):
        r = self.rng; ms = []
        un = r.random() < .25
        for _ in range(r.randint(1, 4)):
            x = r.random()
            if x < .18:
                t = r.choice([I32, U32, I8, U8, I16, I64, U64, BOOL])
                bw = 1 if t is BOOL else r.randint(1, 8 * t[1])
                ms.append(dict(t=t, bf=bw, al=0, nm=1, name=self.name()))
                if not un and r.random() < .35: ms.append(dict(t=t, bf=r.choice([0, 3, 7]) if t is not BOOL else 0, al=0, nm=0, name=""))
            elif x < .32 and d > 0:
                t = self.tag(d - 1, True)
                ms.append(dict(t=t, bf=-1, al=0, nm=0, name=""))
            else:
                ms.append(dict(t=self.type(d - 1), bf=-1, al=0, nm=1, name=self.name()))
        self.pr.tags.append(dict(un=int(un), pk=0, al=0, mem=ms, anon=anon))
        return ["s", len(self.pr.tags)]
    def type(self, d):
        r = self.rng; x = r.random()
        if d <= 0 or x < .35:
            return r.choice(LEAF)
        if x < .62:
            b = r.choice([I8, U8, U16, I32, U32]) if r.random() < .35 else self.type(d - 1)
            return ["a", b, r.randint(1, 4)]
        if x < .72 and any(not t["anon"] for t in self.pr.tags):
            return ["s", r.choice([i + 1 for i, t in enumerate(self.pr.tags) if not t["anon"]])]
        return self.tag(d - 1)
    # ---- navigation (only steers generation; CInit.tla decides)
    def mem(self, t): return self.pr.tags[t[1]-1]["mem"]
    def takes(self, m): return m["nm"] == 1 or m["bf"] < 0
    def sub(self, t, i): return t[1] if t[0] == "a" else self.mem(t)[i-1]["t"]
    def at(self, t, p):
        for i in p: t = self.sub(t, i)
        return t
    def first(self, t):
        if t[0] == "a": return 0
        for i, m in enumerate(self.mem(t), 1):
            if self.takes(m): return i
        return 0
    def succ(self, top, base, p):
        while len(p) > len(base):
            t = self.at(top, p[:-1]); i = p[-1]
            if t[0] == "a" and i + 1 < t[2]: return p[:-1] + [i + 1]
            if t[0] == "s" and not self.pr.tags[t[1]-1]["un"]:
                for j in range(i + 1, len(self.mem(t)) + 1):
                    if self.takes(self.mem(t)[j-1]): return p[:-1] + [j]
            p = p[:-1]
        return None
    def names(self, t):
        out = []
        for i, m in enumerate(self.mem(t), 1):
            if m["nm"] and m["bf"] != 0: out.append((m["name"], [i]))
            elif not m["nm"] and m["t"][0] == "s": out += [(n, [i] + p) for n, p in self.names(m["t"])]
        return out
    # ---- values
    def leafval(self, t):
        r = self.rng
        if t[0] == "p":
            if t == PC: return ["s", 1, [r.randint(97, 122) for _ in range(r.randint(0, 4))]] if r.random() < .85 else ["i", i2w(0)]
            return ["p", r.randint(0, 7)] if r.random() < .8 else ["i", i2w(0)]
        if t[0] == "f":
            return ["q", r.randint(-400, 400)] if r.random() < .7 else ["i", i2w(r.randint(0, 999))]
        if r.random() < .08: return ["q", r.randint(-100, 400)]
        x = r.random()
        if x < .6: v = r.randint(1, 120)
        elif x < .8: v = r.choice([-1, -128, 255, 256, 32767, 65535, -32768, 2**31 - 1, -2**31, 2**32 - 1, 2**32, 2**63 - 1, -2**63 + 1, 0])
        else: v = r.randint(-2**31, 2**31) if x < .9 else r.randint(-2**62, 2**62)
        return ["i", i2w(v)]
    def canon(self, t, bw):
        """a value for a scalar that survives the conversion unchanged"""
        r = self.rng
        if t == PC: return ["s", 1, [r.randint(97, 122) for _ in range(2)]]
        if t == PI: return ["p", r.randint(0, 7)]
        if t[0] == "f": return ["i", i2w(r.randint(-400, 400))]       # times 4
        lo, hi = irange(t)
        if bw >= 0 and t[3]: lo, hi = (-(1 << bw-1), (1 << bw-1) - 1) if t[2] else (0, (1 << bw) - 1)
        return ["i", i2w(r.randint(max(lo, -100000), min(hi, 100000)))]
    def leaves(self, t, p=(), bw=-1):
        if t[0] == "a":
            return [x for i in range(t[2]) for x in self.leaves(t[1], p + (i,))]
        if t[0] == "s":
            ms = [(i, m) for i, m in enumerate(self.mem(t), 1) if self.takes(m)]
            if self.pr.tags[t[1]-1]["un"]: ms = ms[:1]
            return [x for i, m in ms for x in self.leaves(m["t"], p + (i,), m["bf"])]
        return [(list(p), t, bw)]
    def sval(self, t):
        for n, (u, lv) in enumerate(self.svars):
            if u == t and self.rng.random() < .5: return ["S", t[1], lv, n]
        lv = [[p, self.canon(u, bw)] for p, u, bw in self.leaves(t)]
        self.svars.append((t, lv))
        return ["S", t[1], lv, len(self.svars) - 1]
    def strval(self, t, braced=True):
        r = self.rng; es = t[1][1]
        n = r.randint(0, 6) if t[2] == NOLEN else r.randint(0, t[2] + (1 if r.random() < .1 else 0))
        cs = [r.choice([r.randint(97, 122), 65, 48, 0x7e] + ([0xe9, 0x3b1] if es > 1 else []) + ([0x1f600] if es == 4 else [])) for _ in range(n)]
        v = ["s", es, cs, "L" if t[1] == I32 else "U" if es == 4 else "u" if es == 2 else ""]
        return ["{", [[[], v]]] if braced and r.random() < .2 else v
    def isstr(self, t): return t[0] == "a" and t[1][0] == "i" and t[1][3] and (t[1] in (I8, U8, U16, I32, U32))
    def value(self, top, p, d, plain):
        """(value, path it lands on)"""
        r = self.rng
        p0 = p
        while True:
            t = self.at(top, p)
            if t[0] not in ("a", "s"):
                v = self.leafval(t)
                return (["{", [[[], v]]] if p == p0 and r.random() < .06 else v), p
            if self.isstr(t) and r.random() < .4: return self.strval(t, p == p0), p
            if t[0] == "s" and self.auto and not self.pr.tags[t[1]-1]["anon"] and r.random() < .25: return self.sval(t), p
            if d > 0 and p == p0 and r.random() < .45: return self.braced(top, p, d - 1), p
            p = p + [self.first(t)]
    def braced(self, top, base, d):
        r = self.rng
        items, cur = [], base + [self.first(self.at(top, base))]
        full = r.random() < .5
        for _ in range(60):
            if r.random() < (.06 if full else .25): break
            ds = []
            if r.random() < .25:
                p = list(base)
                while True:
                    t = self.at(top, p)
                    if t[0] == "a":
                        n = min(t[2], 5); i = r.randrange(n); j = i
                        if r.random() < .12 and i + 1 < n: j = r.randint(i + 1, n - 1)
                        ds.append(["i", i, j]); p = p + [j]
                    elif t[0] == "s":
                        nm = self.names(t)
                        if not nm: break
                        n, q = r.choice(nm)
                        ds.append(["m", n]); p = p + q
                    else: break
                    if r.random() < .5 or ds[-1][0] == "i" and ds[-1][1] != ds[-1][2]: break
                cur = p
                if not ds: cur = base + [self.first(self.at(top, base))]
            if cur is None:
                if r.random() < .03: items.append([[], ["i", i2w(r.randint(1, 9))]])
                break
            rg = bool(ds) and ds[-1][0] == "i" and ds[-1][1] != ds[-1][2]
            for _ in range(8):
                v, p = self.value(top, cur, max(d, 1) if rg else d, not ds)
                if not rg or p == cur: break
            items.append([ds, v])
            cur = self.succ(top, base, p)
            if cur is None and r.random() < .7: break
        return ["{", items]

def obj(rng, flavour):
    """flavour: auto (any expressions), static, flex"""
    o = Obj(rng, flavour == "auto")
    if flavour == "flex":
        t = o.tag(1); tg = o.pr.tags[-1]; tg["un"] = 0
        tg["mem"] = [m for m in tg["mem"] if m["bf"] < 0 or m["nm"]] or [dict(t=I32, bf=-1, al=0, nm=1, name=o.name())]
        tg["mem"].append(dict(t=["a", rng.choice([I8, I16, I32, I64, PI, ["s", len(o.pr.tags)-1] if len(o.pr.tags) > 1 and not o.pr.tags[-2]["anon"] else I32]), NOLEN], bf=-1, al=0, nm=1, name=o.name(), flex=1))
        o.t = t
    else:
        x = rng.random()
        if x < .25:
            b = o.type(2) if rng.random() < .8 else rng.choice([I8, U16, I32])
            o.t = ["a", b, NOLEN]
        else:
            o.t = o.type(3) if x < .9 else o.tag(2)
            for _ in range(3):
                if o.t[0] not in "as": o.t = o.type(3)
    if o.t[0] in "as":
        if o.isstr(o.t) and rng.random() < .3: o.v = o.strval(o.t)
        elif o.auto and o.t[0] == "s" and rng.random() < .05: o.v = o.sval(o.t)
        else:
            for _ in range(20):
                o.v = o.braced(o.t, [], 2)
                if o.t[0] != "a" or o.t[2] != NOLEN or o.v[1]: break
            if not o.v[1] and o.t[0] == "a" and o.t[2] == NOLEN: return obj(rng, flavour)
    else:
        o.v = o.leafval(o.t)
        if rng.random() < .5: o.v = ["{", [[[], o.v]]]
    return o

# ------------------------------------------------------------------ rendering
def cstr(codes, es, rng):
    q = "".join(chr(c) if 32 <= c < 127 and chr(c) not in '"\\?' else
                ("\\u%04x" % c if c < 65536 else "\\U%08x" % c) for c in codes)
    return q

class R2(Render):
    def path(self, o, t, p):
        s = ""
        for i in p:
            if t[0] == "a": s += "[%d]" % i; t = t[1]
            else:
                m = o.mem(t)[i-1]
                if m["nm"]: s += "." + m["name"]
                t = m["t"]
        return s, t
    def val(self, o, v, const, leaf=None):
        r = self.rng
        k = v[0]
        if k == "i":
            n = w2i(v[1])
            s = str(n) + ("L" if not -2**31 <= n < 2**31 else "")
            if n < 0: s = "(%s)" % s if r.random() < .3 else s
            if not const and r.random() < .3 and n: return "zz%d + %s" % (self.k, s if n > 0 else "(%s)" % s)
            if const and 0 < n < 1000 and r.random() < .15: return "%d + %d" % (n // 2, n - n // 2)
            return s
        if k == "q":
            s = repr(v[1] / 4)
            return s if r.random() < .7 else s + "f"
        if k == "p":
            return r.choice(["vpA%d + %d", "&vpA%d[%d]"]) % (self.k, v[1]) if r.random() < .8 else "(int *)&vpA%d[%d]" % (self.k, v[1])
        if k == "s":
            pre = v[3] if len(v) > 3 else ""
            cs = v[2]
            if len(cs) > 1 and r.random() < .25:
                n = r.randint(1, len(cs) - 1)
                return '%s"%s" %s"%s"' % (pre, cstr(cs[:n], v[1], r), pre, cstr(cs[n:], v[1], r))
            return '%s"%s"' % (pre, cstr(cs, v[1], r))
        if k == "S": return "sv%d_%d" % (self.k, v[3])
        if k == "{":
            its = [self.item(o, d, x, const) for d, x in v[1]]
            return "{" + ", ".join(its) + (", " if its and r.random() < .3 else " ") + "}"
    def item(self, o, ds, v, const):
        s = ""
        for d in ds:
            if d[0] == "m": s += "." + d[1]
            elif d[1] == d[2]: s += "[%d]" % d[1]
            else: s += "[%d ... %d]" % (d[1], d[2])
        return (s + " = " if s else "") + self.val(o, v, const)
    def show(self, o, base, leaves):
        out = []
        for p, v in leaves:
            s, t = self.path(o, o.t, p)
            e = base + s
            if v[0] == "s": out.append("OUTI(%s ? vpeq%d(%s, \"%s\") : -9);" % (e, self.k, e, cstr(v[2], 1, None)))
            elif t[0] == "p" and t == PI: out.append("OUTI(%s ? %s - vpA%d : -1);" % (e, e, self.k))
            elif t[0] == "p": out.append("OUTI(%s ? 1 : -1);" % e)
            elif t[0] == "f": out.append("OUTI((long)(%s * 4));" % e)
            else: out.append("OUTI(%s);" % e)
        return " ".join(out)

def u4fix(codes):
    return codes

def text(o, k, rng, leaves, top, flavour):
    """C text and expected lines"""
    R = R2(o.pr, k, rng)
    flavour = o.flavour
    T = [R.tagdef(i + 1) for i in range(len(o.pr.tags))]
    T += ["static int vpA%d[8];" % k, "static int zz%d;" % k,
          "static int vpeq%d(char *a, char *b) { while (*a && *a == *b) { a++; b++; } return *a == *b; }" % k,
          "static void fill%d(char *p, int n) { while (n--) *p++ = 0xa5; }" % k,
          "static void dirty%d(void) { char b[700]; fill%d(b, 700); }" % (k, k)]
    unk = o.t[0] == "a" and o.t[2] == NOLEN
    def dt(nm):
        if unk: return R.ty(o.t[1], nm + "[]")
        return R.ty(o.t, nm)
    ini = lambda const: R.val(o, o.v, const)
    vals = []
    for p, v in leaves:
        vals.append("i 16 %x" % (1 if v[0] == "s" else v[1] & (2**64-1) if v[0] == "p" else w2i(v[1], False)))
    size = ["i 16 %x" % top] if unk else []
    body, want = [], []
    def emit(base, sz=None):
        if unk and sz: body.append("OUTI(sizeof %s / sizeof %s[0]);" % (sz, sz)); want.extend(size)
        body.append(R.show(o, base, leaves)); want.extend(vals)
    hasS = "\"S\"" in json.dumps(o.v)
    fns = []
    if not hasS:
        T.append("%s%s = %s;" % (rng.choice(["", "static "]), dt("gi%d" % k), ini(True)))
        emit("gi%d" % k, "gi%d" % k)
        body.append("{ static %s = %s;" % (dt("si"), ini(True))); emit("si", "si"); body.append("}")
    if flavour != "flex":
        if not hasS:
            if o.t[0] == "a":
                T.append("%s = (%s)%s;" % (R.ty(["p", o.t[1]], "gp%d" % k), dt(""), ini(True)) if o.v[0] == "{" else "")
                if T[-1]: emit("gp%d" % k)
            else:
                v = ini(True); v = v if v[0] == "{" else "{%s}" % v
                T.append("%s = &(%s)%s;" % (R.ty(["p", o.t], "gp%d" % k), dt(""), v))
                emit("(*gp%d)" % k)
        if o.v[0] != "S":
            v = ini(False)
            if v[0] != "{" : v = "{%s}" % v if o.t[0] != "a" else None
            if v and o.t[0] == "a": body.append("{ %s = (%s)%s;" % (R.ty(["p", o.t[1]], "p"), dt(""), v)); emit("p"); body.append("}")
            elif v: body.append("{ %s = &(%s)%s;" % (R.ty(["p", o.t], "p"), dt(""), v)); emit("(*p)"); body.append("}")
        # automatic, twice, the object and the stack soiled in between
        body.append("for (int n = 0; n < 2; n++) { dirty%d(); %s = %s;" % (k, dt("x"), ini(False)))
        w0 = len(want)
        emit("x", "x")
        want.extend(want[w0:])
        body.append("fill%d((char *)&x, sizeof x); }" % k)
    pre = []
    for n, (t, lv) in enumerate(o.svars):
        pre.append(R.ty(t, "sv%d_%d" % (k, n)) + ";")
        for p, v in lv:
            s, u = R.path(o, t, p)
            rv = ('"%s"' % cstr(v[2], 1, None)) if v[0] == "s" else "vpA%d + %d" % (k, v[1]) if v[0] == "p" else \
                 repr(w2i(v[1]) / 4) if u[0] == "f" else str(w2i(v[1]))
            pre.append("sv%d_%d%s = %s;" % (k, n, s, rv))
    T.append("static void fi%d(void)\n{\n%s\n}" % (k, "\n".join(pre + body)))
    return "\n".join(x for x in T if x), "fi%d" % k, want

def run_objs(ck, label, objs):
    res = ck.tlc("CInit", batch=[dict(tags=o.pr.tags, t=o.t, v=o.v) for o in objs], name="CInit/" + label)
    items, ub, seen = [], {}, set()
    for r in res:
        k, st, top, leaves = json.loads(r)
        if k in seen: continue
        seen.add(k)
        if st != "done":
            ub[st] = ub.get(st, 0) + 1; continue
        o = objs[k-1]
        if len(leaves) > 150: ub["large"] = ub.get("large", 0) + 1; continue
        tx, fn, want = text(o, k, random.Random("%s/%d" % (o.seed, k)), leaves, top, None)
        items.append((str(k), k, tx, fn, want))
    if len(seen) != len(objs): raise Broken("model gave %d results for %d objects" % (len(seen), len(objs)))
    items.sort(key=lambda x: x[1])
    ck.extra.setdefault("objects", {})[label] = dict(generated=len(objs), defined=len(items), discarded=ub, scalars=sum(len(i[4]) for i in items))
    if items: ck.sample(dict(program=items[len(items)//2][2][:1500], expected=items[len(items)//2][4][:12]))
    return run_texts(ck, label, items)

def make(rng, flavour):
    o = obj(rng, flavour)
    o.flavour, o.seed = flavour, rng.random()
    return o

def systematic(rng, maxlen):
    """every list of up to maxlen items over a small alphabet, for a few shapes"""
    def base(o, kind):
        M = lambda t, name, bf=-1: dict(t=t, bf=bf, al=0, nm=int(name != ""), name=name)
        tg = o.pr.tags
        def tag(ms, un=0, anon=False):
            tg.append(dict(un=un, pk=0, al=0, mem=ms, anon=anon)); return ["s", len(tg)]
        if kind == 0:
            b = tag([M(I32, "b"), M(I16, "c")]); an = tag([M(U8, "u"), M(["a", I8, 2], "w")], 1, True)
            t = tag([M(I32, "a"), M(b, "d"), M(an, ""), M(["a", I16, 2], "e")])
            return t, [[], [["m", "a"]], [["m", "d"]], [["m", "d"], ["m", "c"]], [["m", "w"]], [["m", "w"], ["i", 1, 1]], [["m", "e"]], [["m", "e"], ["i", 0, 0]]]
        if kind == 1:
            b = tag([M(I8, "b"), M(I32, "", 3), M(I32, "c", 5)])
            return ["a", b, NOLEN], [[], [["i", 0, 0]], [["i", 1, 1]], [["i", 2, 2], ["m", "b"]], [["i", 0, 1]], [["i", 1, 1], ["m", "c"]]]
        if kind == 2:
            return ["a", ["a", ["a", I16, 2], 2], 2], [[], [["i", 1, 1]], [["i", 0, 0], ["i", 1, 1]], [["i", 1, 1], ["i", 0, 0], ["i", 1, 1]], [["i", 0, 1]]]
        if kind == 3:
            an2 = tag([M(I32, "p"), M(I32, "q")], 0, True)
            an = tag([M(I64, "u"), M(an2, ""), M(["a", I32, 2], "z")], 1, True)
            t = tag([M(an, ""), M(I8, "e"), M(I8, "f")])
            return t, [[], [["m", "u"]], [["m", "p"]], [["m", "q"]], [["m", "z"], ["i", 1, 1]], [["m", "e"]]]
        cs = tag([M(["a", I8, 3], "s"), M(["a", PC, 2], "t")])
        return ["a", cs, 2], [[], [["i", 1, 1]], [["i", 1, 1], ["m", "s"]], [["i", 0, 0], ["m", "t"]], [["i", 1, 1], ["m", "t"], ["i", 1, 1]]]
    out = []
    import itertools
    for kind in range(5):
        o0 = Obj(rng, False); t0, ds = base(o0, kind)
        vals = ["v", "{1}", "{2}"] if kind < 4 else ["s", "{s}"]
        alpha = [(d, v) for d in ds for v in vals]
        for n in range(1, maxlen + 1):
            for seq in itertools.product(alpha, repeat=n):
                o = Obj(rng, False)
                o.t, _ = base(o, kind)
                c = [0]
                def num():
                    c[0] += 1; return ["i", i2w(c[0])]
                def mk(v):
                    c[0] += 1
                    if v == "v": return num()
                    if v == "s": return ["s", 1, [97 + c[0]] * (1 + c[0] % 2)]
                    if v == "{s}": return ["{", [[[], ["s", 1, [97 + c[0]]]]]]
                    return ["{", [[[], num()] for _ in range(int(v[1]))]]
                o.v = ["{", [[d, mk(v)] for d, v in seq]]
                o.flavour, o.seed = "static", 1
                out.append(o)
    return out
