"""Random program generators over the format of cprog.py."""
from cprog import *

BINOPS = ["+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>", "==", "!=", "<", ">", "<=", ">=", "&&", "||"]

def interesting(rng, t):
    lo, hi = irange(t)
    r = rng.random()
    if r < .35: return max(lo, min(hi, rng.choice([0, 1, 2, 3, 5, 7, -1, -2, -5, 100])))
    if r < .6: return rng.choice([lo, hi, lo + 1, hi - 1, hi // 2, hi // 2 + 1])
    if r < .8:
        v = rng.choice([127, 128, 255, 256, 32767, 32768, 65535, 65536, 2**31-1, 2**31, 2**32-1, 2**32, 2**63-1, 2**63, -128, -129, -32768, -2**31, -2**31-1])
        return v if lo <= v <= hi else rng.randint(lo, hi)
    return rng.randint(lo, hi)

class EG:
    """side-effect free integer expressions over a set of readable leaves"""
    def __init__(self, rng, leaves, consts=True):
        self.rng, self.leaves, self.consts = rng, leaves, consts
    def const(self):
        t = self.rng.choice([I32, I32, I32, U32, I64, U64, LL, ULL])
        v = interesting(self.rng, t)
        return num(v, t)
    def small(self):
        return num(self.rng.randint(0, 40), I32)
    def leaf(self):
        if self.leaves and (not self.consts or self.rng.random() < .7):
            return self.rng.choice(self.leaves)
        return self.const()
    def e(self, d):
        r = self.rng
        if d <= 0 or r.random() < .12: return self.leaf()
        k = r.random()
        if k < .56:
            op = r.choice(BINOPS)
            a, b = self.e(d-1), self.e(d-1)
            if op in ("<<", ">>"):
                if op == "<<" and r.random() < .6: a = ["c", r.choice([U32, U64]), a]
                if r.random() < .8: b = ["b", "&", b, num(r.choice([7, 15, 31]), I32)]
            if op in ("/", "%") and r.random() < .6: b = ["b", "|", b, num(1)]
            if op in ("+", "-", "*") and r.random() < .45:
                a = ["c", r.choice([U32, U64, I64, U16, I8, U8]), a]
            return ["b", op, a, b]
        if k < .68: return ["u", r.choice("-~!+"), self.e(d-1)]
        if k < .84: return ["c", r.choice(ALLINTS), self.e(d-1)]
        if k < .93: return ["?", self.e(d-1), self.e(d-1), self.e(d-1)]
        if k < .97: return ["b", ",", self.e(d-1), self.e(d-1)]
        x = self.e(d-1)
        return ["sz", ["u", "+", x] if x[0] in (".", "->") else x]

def intexpr_prog(rng, nout=8, depth=4):
    p = Prog()
    g = [p.gvar(rng.choice(ALLINTS)) for _ in range(rng.randint(1, 4))]
    arr_t = ["a", rng.choice(ALLINTS), rng.randint(2, 5)]
    ga = p.gvar(arr_t)
    # functions with an expression body
    fns = []
    for _ in range(rng.randint(0, 2)):
        par = [p.lvar(rng.choice(ALLINTS)) for _ in range(rng.randint(1, 4))]
        eg = EG(rng, [["v", v] for v in par])
        p.funcs.append(dict(name="f", par=par, loc=[], ret=rng.choice(ALLINTS), body=eg.e(2)))
        fns.append(len(p.funcs))
    loc = [p.lvar(rng.choice(ALLINTS)) for _ in range(rng.randint(2, 6))]
    leaves = [["v", v] for v in g + loc] + [["[]", ["v", ga], num(i)] for i in range(arr_t[2])]
    body = []
    for v in g + loc:
        t = p.vars[v-1]["t"]
        body.append(dict(op="setb", v=v, b=i2w(interesting(rng, t))[:t[1]]))
    b = []
    for _ in range(arr_t[2]):
        b += i2w(interesting(rng, arr_t[1]))[:arr_t[1][1]]
    body.append(dict(op="setb", v=ga, b=b))
    eg = EG(rng, leaves)
    for f in fns:
        leaves.append(["call", f, [eg.e(1) for _ in p.funcs[f-1]["par"]]])
    for _ in range(nout):
        body.append(dict(op="outp", e=eg.e(rng.randint(2, depth))))
    p.finish(loc, dict(op="block", ch=body))
    return p
