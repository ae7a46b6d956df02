"""Struct and union declarations of every shape; where each member lands."""
from gen import *

SCAL = [BOOL, I8, U8, I16, U16, I32, U32, I64, U64, LL, F32, F64, F128, ["p", I8], ["p", I32]]
AL = {1: 1, 2: 2, 4: 4, 8: 8, 16: 16}
class Lay:
    def __init__(self, rng):
        self.r, self.p = rng, Prog()
        self.big = []           # usable earlier tags
        self.cnt = 0
    def nat(self, t):
        if t[0] == "a": return self.nat(t[1])
        if t[0] == "s": return 16
        return 8 if t[0] == "p" else t[1]
    def member(self, un, pk, bfok):
        r = self.r
        k = r.random()
        if bfok and k < .5:
            t = r.choice([BOOL, I8, U8, I16, U16, I32, U32, I32, I64, U64])
            w = 1 if t == BOOL else r.choice([r.randint(1, 8 * t[1]), r.randint(1, min(9, 8 * t[1])), 8 * t[1], 8 * t[1] - 1, 1])
            q = r.random()
            if q < .1: return (t, 0, 0, 0)                       # zero width
            if q < .25: return (t, w, 0, 0)                      # unnamed
            return (t, w, 0, 1)
        al = 0
        if k < .75 or not self.big: t = r.choice(SCAL)
        elif k < .87: t = ["a", r.choice(SCAL), r.randint(1, 4)]
        else:
            t = r.choice(self.big)
            if r.random() < .3: t = ["a", t, r.randint(1, 2)]
        if r.random() < .1: al = r.choice([a for a in (1, 2, 4, 8, 16, 32) if a >= self.nat(t)] or [32])
        return (t, -1, al, 1)
    def tag(self, depth=0, anon=False):
        r, p = self.r, self.p
        un = r.random() < .25
        pk = r.random() < .15
        mem = []
        for _ in range(r.randint(1, 7)):
            if not pk and depth < 2 and r.random() < .1:
                mem.append((self.tag(depth + 1, True), -1, 32 if r.random() < .2 else 0, 0))
            else: mem.append(self.member(un, pk, not pk))
        if all(m[3] == 0 and m[1] >= 0 for m in mem): mem.append((r.choice(SCAL), -1, 0, 1))
        flex = not un and not anon and r.random() < .08
        if flex: mem.append((["a", r.choice(SCAL), 0], -1, 0, 1))
        al = r.choice([2, 4, 8, 16, 32]) if r.random() < .12 else 0
        t = p.tag(mem, un=int(un), pk=int(pk), al=al)
        d = p.tags[-1]
        if flex: d["mem"][-1]["flex"] = 1
        if anon:
            d["anon"] = 1
        for n, m in enumerate(d["mem"], 1):
            if m["nm"]:
                self.cnt += 1
                m["name"] = "x%d" % self.cnt
        d["flex"] = int(flex)
        if not anon and not flex: self.big.append(t)
        return t
    def leaves(self, e, t, out):
        if t[0] == "s":
            for k, m in enumerate(self.p.tags[t[1]-1]["mem"], 1):
                if m["bf"] >= 0:
                    if m["nm"]: out.append(([".", e, k, m["name"]], m["t"], m["bf"]))
                elif not m["nm"]: self.leaves([".", e, k, ""], m["t"], out)
                else: self.leaves([".", e, k, m["name"]], m["t"], out)
        elif t[0] == "a":
            for i in {0, t[2] - 1}:
                if t[2] > 0: self.leaves(["[]", e, num(i)], t[1], out)
        else: out.append((e, t, -1))
    def offs(self, e, t, out):
        """every addressable sub-object"""
        for k, m in enumerate(self.p.tags[t[1]-1]["mem"], 1):
            if m["bf"] >= 0: continue
            if not m["nm"]: self.offs([".", e, k, ""], m["t"], out); continue
            x = [".", e, k, m["name"]]
            if m["t"][0] == "a": out.append(["[]", x, num(0)])
            else: out.append(x)
            if m["t"][0] == "s": self.offs(x, m["t"], out)

def lay_prog(rng, own=True):
    L = Lay(rng)
    p, r = L.p, rng
    for _ in range(r.randint(1, 3)): L.tag()
    top = [["s", i] for i, d in enumerate(p.tags, 1) if not d.get("anon")]
    g, l = [], []
    for t in top:
        g.append(p.gvar(t))
    ga = []
    for _ in range(2):
        a = r.choice([1, 2, 4, 8, 16, 32, 64, 256])
        t = r.choice([U8, I16, ["a", U8, 3]])
        if a < L.nat(t): a = L.nat(t)
        v = p.gvar(t); p.vars[v-1]["al"] = a; ga.append((v, a))
        if r.random() < .5: p.gvar(U8)
    la, loc = [], []
    for _ in range(2):
        a = r.choice([2, 4, 8, 16])
        v = p.lvar(r.choice([U8, I16, ["a", U8, 3]])); p.vars[v-1]["al"] = a; la.append((v, a)); loc.append(v)
        if r.random() < .5: loc.append(p.lvar(U8))
    for t in top: l.append(p.lvar(t)); loc.append(l[-1])
    ptr = p.lvar(["p", I8]); loc.append(ptr)
    st = []
    def out(e): st.append(dict(op="out", e=e, cls="i"))
    C = ["p", I8]
    for t, v, w in zip(top, g, l):
        out(["szt", t]); out(["alt", t]); out(["szt", ["a", t, 3]])
        st.append(dict(op="outp", e=["am", ["v", v], t, 0]))
        st.append(dict(op="outp", e=["am", ["v", w], t, 1]))
        of = []
        L.offs(["v", v], t, of)
        for e in of:
            out(["b", "-", ["c", C, ["&", e]], ["c", C, ["&", ["v", v]]]])
        lv = []
        L.leaves(["v", r.choice([v, w])], t, lv)
        for e, et, bf in lv[:24]:
            b = e
            while b[0] != "v": b = b[1]
            st.append(dict(op="zero", v=b[1]))
            if et[0] == "p": continue
            if et[0] == "f": val = fnum(r.choice([1.5, 2.0, 3.25]), et)
            elif bf >= 0 or r.random() < .5: val = num(-1) if et != BOOL else num(1)
            else: val = num(r.choice([0x5a, 77, 0x1234567, 0x123456789abcdef]), I64)
            st.append(dict(op="expr", e=["=", e, val]))
            st.append(dict(op="dump", v=b[1], id=len(st)))
            st.append(dict(op="try", o=1, e=["c", et, e] if bf >= 0 else e, cls="f" if et[0] == "f" else "i"))
    for v, a in ga + la: st.append(dict(op="outp", e=["am", ["v", v], a, 0]))
    p.finish(loc, dict(op="block", ch=st))
    return p
