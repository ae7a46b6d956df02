"""Floating-point expressions, mixed with integers."""
from gen import *

FLTS = [F32, F64, F128]
FV = {4: [0.0, 0.5, 1.0, 1.5, 2.0, 3.0, 0.1, 1e-3, 3.1415927, 16777216.0, 16777215.0, 1e10, 2147483648.0, 4294967296.0, 3e38, 1e-38, 1e-40, 1.4e-45, 9.2e18, 255.0, 100.5],
      8: [0.0, 0.5, 1.0, 1.5, 2.0, 3.0, 0.1, 1e-3, 3.141592653589793, 16777217.0, 9007199254740993.0, 1e10, 2147483647.0, 2147483648.5, 4294967295.0, 4294967296.0, 1e300, 1e-300, 5e-324,
          2.2250738585072014e-308, 9223372036854775807.0, 9223372036854774784.0, 1.8446744073709550e19, 255.9, 0.1 + 0.2, 1e39, 1e-46, 7.006492321624085e-46]}
FV[16] = FV[8]
def f32r(v): return struct.unpack("<f", struct.pack("<f", v))[0]
def fval(r, t):
    k = r.random()
    if k < .75: v = r.choice(FV[t[1]])
    elif k < .9: v = r.randint(0, 2**r.randint(1, 63)) * 2.0**r.randint(-30, 3)
    else: v = r.random() * 10**r.randint(-5, 5)
    return f32r(v) if t == F32 else v
def flit(r, t, small=False):
    if small: return fnum(r.choice([0.0, 0.5, 1.0, 1.5, 2.0, 3.0, 7.25, 100.0, 0.125]), t)
    return fnum(fval(r, t), t)
def fpat(r, t):
    """bytes of a value of floating type t for a variable"""
    k = r.random()
    v = fval(r, t)
    b = fbytes(v, t[1])
    if k < .06: b = {4: [0,0,0x80,0x7f], 8: [0]*6+[0xf0,0x7f], 16: [0]*14+[0xff,0x7f]}[t[1]]
    elif k < .1: b = {4: [0,0,0xc0,0x7f], 8: [0]*6+[0xf8,0x7f], 16: [0]*13+[0x80,0xff,0x7f]}[t[1]]
    elif k < .3 and t[1] == 16:
        b = [r.randint(0, 255) for _ in range(14)] + [r.choice([0xff, 0xfe, 0x00, 0x3e, 0x6e]), 0x3f]
    elif k < .4 and t[1] < 16:
        b = [r.randint(0, 255) for _ in range(t[1])]
    if r.random() < .4: b = b[:-1] + [b[-1] ^ 0x80]
    return b

class MG:
    def __init__(self, rng, ints, flts, types=FLTS, smallonly=False):
        self.r, self.ints, self.flts, self.types, self.small = rng, ints, flts, types, smallonly
        self.eg = EG(rng, ints)
    def fleaf(self):
        r = self.r
        if self.flts and r.random() < .75: return r.choice(self.flts)
        return flit(r, r.choice(self.types), self.small)
    def ileaf(self): return self.eg.leaf()
    def fe(self, d):
        r = self.r
        if d <= 0 or r.random() < .1: return self.fleaf()
        k = r.random()
        if k < .55:
            op = r.choice("+-*/" if not self.small else "+-*")
            a, b = self.fe(d-1), self.fe(d-1)
            q = r.random()
            if q < .12: a = self.ie(d-1)
            elif q < .24: b = self.ie(d-1)
            return ["b", op, a, b]
        if k < .65: return ["u", r.choice("--+"), self.fe(d-1)]
        if k < .8: return ["c", r.choice(self.types), self.fe(d-1)]
        if k < .88: return ["c", r.choice(self.types), self.ie(d-1)]
        if k < .96:
            a, b = self.fe(d-1), self.fe(d-1)
            if r.random() < .3: b = self.ie(d-1)
            return ["?", r.choice([self.ie, self.fe])(d-1), a, b]
        return ["b", ",", self.fe(d-1), self.fe(d-1)]
    def ie(self, d):
        r = self.r
        if d <= 0 or r.random() < .1: return self.ileaf()
        k = r.random()
        if k < .3: return ["b", r.choice(["<", ">", "<=", ">=", "==", "!="]), self.fe(d-1), r.choice([self.fe, self.fe, self.ie])(d-1)]
        if k < .4: return ["u", "!", self.fe(d-1)]
        if k < .5: return ["b", r.choice(["&&", "||"]), r.choice([self.fe, self.ie])(d-1), r.choice([self.fe, self.ie])(d-1)]
        if k < .75: return ["c", r.choice(ALLINTS), self.fe(d-1)]
        if k < .8: return ["?", self.fe(d-1), self.ie(d-1), self.ie(d-1)]
        return self.eg.e(d-1)

def flt_prog(rng, nout=8, depth=3):
    p = Prog()
    r = rng
    g = [p.gvar(r.choice(FLTS)) for _ in range(r.randint(1, 3))]
    fns = []
    for _ in range(r.randint(0, 2)):
        par = [p.lvar(r.choice(FLTS + [I32, I64, U8])) for _ in range(r.randint(1, 4))]
        mg = MG(r, [["v", v] for v in par if p.vars[v-1]["t"][0] == "i"], [["v", v] for v in par if p.vars[v-1]["t"][0] == "f"])
        p.funcs.append(dict(name="f", par=par, loc=[], ret=r.choice(FLTS), body=mg.fe(2)))
        fns.append(len(p.funcs))
    loc = [p.lvar(r.choice(FLTS)) for _ in range(r.randint(2, 4))] + [p.lvar(r.choice(ALLINTS)) for _ in range(r.randint(2, 4))]
    st = []
    for v in g + loc:
        t = p.vars[v-1]["t"]
        st.append(dict(op="setb", v=v, b=fpat(r, t) if t[0] == "f" else i2w(interesting(r, t))[:t[1]]))
    fl = [["v", v] for v in g + loc if p.vars[v-1]["t"][0] == "f"]
    it = [["v", v] for v in g + loc if p.vars[v-1]["t"][0] == "i"]
    mg = MG(r, it, fl)
    for f in fns:
        fl.append(["call", f, [r.choice([mg.fe, mg.ie])(1) for _ in p.funcs[f-1]["par"]]])
    for _ in range(nout):
        k = r.random()
        if k < .45: st.append(dict(op="try", o=1, e=mg.fe(r.randint(1, depth)), cls="f"))
        elif k < .7: st.append(dict(op="try", o=1, e=mg.ie(r.randint(1, depth)), cls="i"))
        else:
            lv = r.choice([x for x in fl if x[0] == "v"] + it)
            isf = p.vars[lv[1]-1]["t"][0] == "f"
            q = r.random()
            if q < .35: e = ["=", lv, r.choice([mg.fe, mg.ie])(2)]
            elif q < .7: e = ["o=", r.choice("+-*/"), lv, r.choice([mg.fe, mg.ie] if isf else [mg.fe])(1)]
            elif isf: e = [r.choice(["pre", "post"]), r.choice("+-"), lv]
            else: e = ["=", lv, mg.fe(1)]
            st.append(dict(op="try", o=1, e=e, cls="f" if isf else "i"))
    p.finish(loc, dict(op="block", ch=st))
    return p

def flt_matrix(rng, full=False):
    """every operator on every pair of operand types with a floating one; every conversion"""
    progs = []
    T = FLTS + INTS
    for a in T:
        for b in T:
            if a[0] == "i" and b[0] == "i": continue
            n = 8 if full else 4
            for _ in range(n):
                p = Prog()
                x, y = p.lvar(a), p.lvar(b)
                st = []
                for v, t in ((x, a), (y, b)):
                    st.append(dict(op="setb", v=v, b=fpat(rng, t) if t[0] == "f" else i2w(interesting(rng, t))[:t[1]]))
                X, Y = ["v", x], ["v", y]
                for op in "+-*/": st.append(dict(op="try", o=1, e=["b", op, X, Y], cls="f"))
                for op in ("<", ">", "<=", ">=", "==", "!=", "&&", "||"): st.append(dict(op="try", o=1, e=["b", op, X, Y], cls="i"))
                for v, t in ((X, a), (Y, b)):
                    if t[0] == "f":
                        for u in ALLINTS: st.append(dict(op="try", o=1, e=["c", u, v], cls="i"))
                        st.append(dict(op="try", o=1, e=["u", "!", v], cls="i"))
                        st.append(dict(op="try", o=1, e=["?", v, num(1), num(2)], cls="i"))
                    for u in FLTS: st.append(dict(op="try", o=1, e=["c", u, v], cls="f"))
                st.append(dict(op="try", o=1, e=["?", num(rng.randint(0, 1)), X, Y], cls="f"))
                for op in ["", "+", "-", "*", "/"]:
                    st.append(dict(op="try", o=1, e=["o=", op, X, Y] if op else ["=", X, Y], cls="f" if a[0] == "f" else "i"))
                    st.append(dict(op="try", o=1, e=X, cls="f" if a[0] == "f" else "i"))
                for k in ("pre", "post"):
                    for op in "+-":
                        st.append(dict(op="try", o=1, e=[k, op, X], cls="f" if a[0] == "f" else "i"))
                p.finish([x, y], dict(op="block", ch=st))
                p.key = "%s-%s-%d" % ("".join(map(str, a)), "".join(map(str, b)), len(progs))
                progs.append(p)
    return progs

def conv_edges(rng):
    """conversions at the points where they round, saturate or change sign"""
    vals = {}                 # type index -> byte patterns
    for t in INTS[1:]:
        lo, hi = irange(t)
        vs = {0, 1, lo, hi, hi - 1, lo + 1, hi // 2, hi // 2 + 1}
        for prec in (24, 53):
            for top in ((prec + 1, prec + 2, 31, 32, 62, 63, 64) if t[1] == 8 else (prec + 1, prec + 2, 30, 31, 32)):
                if top < prec + 1: continue
                half = 1 << (top - prec - 1)
                for base in (1 << (top - 1), (1 << (top - 1)) + 2 * half, (1 << top) - 2 * half):
                    for d in (-1, 0, 1):
                        for s in (1, -1): vs.add(s * (base + half + d))
        vals[json.dumps(t)] = [i2w(v)[:t[1]] for v in sorted(vs) if lo <= v <= hi]
    dv = set()
    for k in (7, 8, 15, 16, 31, 32, 63, 64):
        for d in (-1, -0.5, 0, 0.5, 1):
            dv.add(2.0**k + d)
        dv.add(2.0**k * (1 - 2.0**-53)); dv.add(2.0**k * (1 - 2.0**-24)); dv.add(2.0**k * (1 + 2.0**-52))
    for e in (0, 10, 126, 127, -126, -127, -130, -149, -150):      # around the midpoints of floats
        for m in (1 + 2.0**-24, 1 + 3 * 2.0**-24, 2 - 2.0**-24, 1.0, 1.5):
            for d in (-2.0**-52, 0, 2.0**-52):
                dv.add((m + d) * 2.0**e)
    dv |= {0.0, 0.25, 0.75, 1.0, 1.999, 5e-324, 2.2250738585072014e-308, 1.7976931348623157e308}
    vals[json.dumps(F64)] = [fbytes(s * v, 8) for v in sorted(dv) for s in (1, -1)]
    vals[json.dumps(F32)] = sorted({tuple(fbytes(s * f32r(v), 4)) for v in dv if v < 3e38 for s in (1, -1)})
    ld = []
    for v in sorted(dv): 
        b = fbytes(v, 16)
        ld.append(b)
        ld.append([1] + b[1:])                                     # sticky bit far below
    for e in (0, 63, 52, -1022, -1030, -1074, -1075, 1023):        # around the midpoints of doubles
        for f in (1 << 59, 3 << 59, (1 << 60) - 1, (1 << 112) - (1 << 59)):
            for d in (-1, 0, 1):
                ld.append(list(((e + 16383) << 112 | (f + d)).to_bytes(16, "little")))
    vals[json.dumps(F128)] = ld + [b[:15] + [b[15] | 0x80] for b in ld]
    progs = []
    for k, pats in vals.items():
        t = json.loads(k)
        for i in range(0, len(pats), 12):
            p = Prog()
            x = p.lvar(t)
            st = []
            for b in pats[i:i+12]:
                st.append(dict(op="setb", v=x, b=list(b)))
                for u in FLTS: st.append(dict(op="try", o=1, e=["c", u, ["v", x]], cls="f"))
                if t[0] == "f":
                    for u in INTS: st.append(dict(op="try", o=1, e=["c", u, ["v", x]], cls="i"))
            p.finish([x], dict(op="block", ch=st))
            p.key = "conv-%s-%d" % ("".join(map(str, t)), i)
            progs.append(p)
    return progs
