"""Random store histories over structs, unions, bit-fields, arrays and pointers."""
from gen import *

FLTS = [F32, F64, F128]
class Sto:
    def __init__(self, rng, nst=12, flt=True, pk=False, maxtags=3):
        self.r, self.p = rng, Prog()
        r, p = rng, self.p
        self.flt, self.pk = flt, pk
        self.tg = []
        for _ in range(r.randint(1, maxtags)):
            self.tg.append(self.mktag())
        self.objs = []
        for _ in range(r.randint(2, 4)):
            self.objs.append(p.gvar(self.objtype()))
        self.cnt = p.gvar(U32)
        self.objs.append(self.cnt)
        for _ in range(2):      # functions with a side effect, used inside operands
            p.funcs.append(dict(name="f", par=[], loc=[], ret=r.choice([I32, U8, I64]),
                                body=["b", ",", ["post", "+", ["v", self.cnt]], num(len(p.funcs))]))
        nl = r.randint(2, 5)
        self.idx = []
        loc = []
        fns = []
        for _ in range(nl):
            v = p.lvar(self.objtype()); loc.append(v); self.objs.append(v)
        for t in (I32, U8, I64):
            v = p.lvar(t); loc.append(v); self.idx.append(v)
        self.loc = loc
        st = []
        for v in self.objs:
            t = p.vars[v-1]["t"]
            st.append(dict(op="setb", v=v, b=self.fill(t)))
        for v in self.idx:
            t = p.vars[v-1]["t"]
            st.append(dict(op="setb", v=v, b=i2w(r.randint(0, 2))[:t[1]]))
        self.ptrs = []
        for _ in range(r.randint(1, 3)):
            lv, t, bf = self.lval(False)
            v = p.lvar(["p", t]); loc.append(v)
            st.append(dict(op="expr", e=["=", ["v", v], ["&", lv]]))
            self.ptrs.append((v, t))
        for _ in range(nst):
            st.append(self.store())
            st += self.dumps()
        p.finish(loc, dict(op="block", ch=st))

    # types
    def scal(self):
        r = self.r
        return r.choice(FLTS) if self.flt and r.random() < .15 else r.choice(ALLINTS)
    def mktag(self):
        r = self.r
        un = r.random() < .25
        mem = []
        n = r.randint(1, 6)
        for _ in range(n):
            k = r.random()
            if k < .5:
                t = r.choice([BOOL, I8, U8, I16, U16, I32, U32, I32, U32, I64, U64])
                w = 1 if t == BOOL else r.choice([r.randint(1, 8 * t[1]), r.randint(1, min(7, 8 * t[1])), 8 * t[1]])
                mem.append((t, w, 0, 1))
                if not un and r.random() < .12: mem.append((r.choice([U8, I32, I64]), 0, 0, 0))
            elif k < .8: mem.append((self.scal(), -1, 0, 1))
            elif k < .9 or not self.tg: mem.append((["a", self.scal(), r.randint(1, 3)], -1, 0, 1))
            else: mem.append((r.choice(self.tg), -1, 0, 1))
        return self.p.tag(mem, un=int(un), pk=int(self.pk and r.random() < .3))
    def objtype(self):
        r = self.r
        k = r.random()
        if k < .5: return r.choice(self.tg)
        if k < .65: return ["a", r.choice(self.tg), r.randint(1, 2)]
        if k < .85: return ["a", self.scal(), r.randint(1, 5)]
        return self.scal()
    def bound(self, t):
        """an upper bound of the size"""
        if t[0] in "if": return t[1]
        if t[0] == "a": return t[2] * self.bound(t[1])
        return sum(self.bound(m["t"]) + 16 for m in self.p.tags[t[1]-1]["mem"]) + 16
    def has_bool(self, t):
        if t[0] == "a": return self.has_bool(t[1])
        if t[0] == "s": return any(m["bf"] < 0 and self.has_bool(m["t"]) for m in self.p.tags[t[1]-1]["mem"])
        return t == BOOL
    def has_flt(self, t):
        if t[0] == "a": return self.has_flt(t[1])
        if t[0] == "s": return any(self.has_flt(m["t"]) for m in self.p.tags[t[1]-1]["mem"])
        return t[0] == "f"
    def fill(self, t):
        # the model and the program cut the pattern at the object's size
        r = self.r
        n = self.bound(t)
        if self.has_bool(t): return [r.randint(0, 1) for _ in range(n)]
        if self.has_flt(t): return [r.choice([r.randint(0, 63), r.randint(128, 190), 0]) for _ in range(n)]
        k = r.random()
        if k < .2: return [255] * n
        if k < .3: return [0] * n
        return [r.choice([r.randint(0, 255), 0, 255, 128, 127]) for _ in range(n)]

    # lvalues: (expr, type, is bit-field)
    def sub(self, e, t, bfok):
        r = self.r
        while True:
            if t[0] == "a":
                i = r.randrange(t[2])
                ix = num(i)
                if r.random() < .25: ix = ["b", "&", ["v", r.choice(self.idx)], num(1)] if t[2] >= 2 else ["b", "&", ["v", r.choice(self.idx)], num(0)]
                e, t = ["[]", e, ix], t[1]
                if r.random() < .05: e = ["*", ["b", "+", e[1], ix]]
            elif t[0] == "s":
                if r.random() < .12: return e, t, False
                mem = self.p.tags[t[1]-1]["mem"]
                ks = [k for k, m in enumerate(mem, 1) if m["nm"] and (bfok or m["bf"] < 0)]
                if not ks: return e, t, False
                k = r.choice(ks)
                m = mem[k-1]
                if e[0] == "*" and r.random() < .5: e = ["->", e[1], k]
                else: e = [".", e, k]
                t = m["t"]
                if m["bf"] >= 0: return e, t, True
            else: return e, t, False
    def lval(self, bfok=True):
        r = self.r
        if getattr(self, "ptrs", None) and r.random() < .2:
            v, t = r.choice(self.ptrs)
            k = r.random()
            if k < .2: return self.sub(["*", [r.choice(["pre", "post"]), r.choice("+-"), ["v", v]]], t, bfok)
            if k < .3: return self.sub(["*", ["o=", r.choice("+-"), ["v", v], num(1)]], t, bfok)
            return self.sub(["*", ["v", v]], t, bfok)
        v = r.choice(self.objs)
        return self.sub(["v", v], self.p.vars[v-1]["t"], bfok)
    def read(self):
        for _ in range(20):
            e, t, bf = self.lval()
            if t[0] == "f": return ["c", self.r.choice([I32, I64, BOOL, U8]), e]
            if t[0] == "i": return ["c", t, e] if bf and t[1] == 8 else e
        return num(3)
    def rhs(self, d=2):
        eg = EG(self.r, [self.read() for _ in range(4)])
        return eg.e(d)
    def store(self):
        r = self.r
        k = r.random()
        e, t, bf = self.lval()
        if t[0] == "s" or (t[0] == "a"):
            # whole-struct copy
            cands = []
            for _ in range(40):
                e2, t2, _ = self.lval(False)
                if t2 == t and e2 != e: cands.append(e2); break
            if not cands or t[0] == "a": return self.store_scalar()
            a = ["=", e, cands[0]]
            if r.random() < .3:
                mem = self.p.tags[t[1]-1]["mem"]
                ks = [k for k, m in enumerate(mem, 1) if m["nm"] and m["t"][0] in "if"]
                if ks:
                    k = r.choice(ks); m = mem[k-1]
                    x = [".", a, k]
                    return dict(op="try", e=["c", m["t"], x] if m["bf"] >= 0 else x, o=1, cls="f" if m["t"][0] == "f" else "i")
            return dict(op="try", e=a, o=0)
        return self.store_scalar()
    def store_scalar(self):
        r = self.r
        for _ in range(30):
            e, t, bf = self.lval()
            if t[0] in "if": break
        else: return dict(op="null")
        # side effects in the address computation
        if e[0] == "[]" and r.random() < .3:
            iv = ["v", r.choice(self.idx)]
            e = ["[]", e[1], r.choice([["call", r.choice([1, 2]), []], ["post", "+", iv], ["pre", "-", iv], ["o=", "^", iv, num(1)], ["=", iv, num(0)]])]
        k = r.random()
        if t[0] == "f":
            v = self.rhs(1)
            if r.random() < .3: v = ["c", r.choice(FLTS), v]
            for _ in range(10):
                e2, t2, bf2 = self.lval()
                if t2[0] == "f":
                    v = ["b", r.choice("+-*"), v, e2] if r.random() < .5 else e2
                    break
            if k < .5: a = ["=", e, v]
            elif k < .8: a = ["o=", r.choice("+-*"), e, v]
            else: a = [r.choice(["pre", "post"]), r.choice("+-"), e]
            return dict(op="try", e=a, o=1, cls="f")
        if k < .4: a = ["=", e, self.rhs()]
        elif k < .75:
            op = r.choice(["+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>"])
            b = self.rhs(1)
            if op in ("<<", ">>"): b = ["b", "&", b, num(r.choice([7, 31]))]
            if op in ("/", "%"): b = ["b", "|", b, num(1)]
            if r.random() < .1 and op in "+-*": b = ["n", F64, fbytes(r.choice([0.5, 2.0, 3.25]), 8)]
            a = ["o=", op, e, b]
        else: a = [r.choice(["pre", "post"]), r.choice("+-"), e]
        if r.random() < .12:
            # chained assignment
            e2, t2, bf2 = self.lval()
            if t2[0] == "i": a = ["=", e2, a]; t, bf = t2, bf2
        if r.random() < .8:
            return dict(op="try", e=["c", t, a] if bf else a, o=1, cls="i")
        return dict(op="try", e=a, o=0)
    def dumps(self):
        r = self.r
        vs = self.objs + self.idx
        return [dict(op="dump", v=v, id=v) for v in vs]

def sto_prog(rng, **kw):
    return Sto(rng, **kw).p

def far_prog(rng):
    """members and elements around the limits of 12-bit displacements"""
    p = Prog(); r = rng
    n = r.choice([2046, 2047, 2048, 2049, 4093, 4094, 4095, 4096, 4097]) - r.choice([0, 0, 1, 2, 3, 7, 8])
    pad = ["a", U8, n]
    inner = p.tag([(r.choice([U8, I16, I32, I64]), -1, 0, 1), (U32, r.randint(1, 12), 0, 1), (I32, r.randint(1, 20), 0, 1), (U8, -1, 0, 1)])
    out = p.tag([(pad, -1, 0, 1), (U8, -1, 0, 1), (U8, -1, 0, 1), (r.choice([I16, I32, I64, U16]), -1, 0, 1), (inner, -1, 0, 1), (["a", I16, 3], -1, 0, 1)], pk=0)
    g = p.gvar(out)
    l = p.lvar(out); q = p.lvar(["p", out]); loc = [l, q]
    st = [dict(op="zero", v=g), dict(op="zero", v=l)]
    def lv():
        b = r.choice([["v", g], ["v", l], None])
        def m(k): return ["->", ["v", q], k] if b is None else [".", b, k]
        k = r.choice([1, 2, 3, 4, 5, 5, 6])
        if k == 1: return ["[]", m(1), num(r.choice([0, 1, n // 2, n - 1, n - 2]))]
        if k == 5: return [".", m(5), r.choice([1, 2, 3, 4])]
        if k == 6: return ["[]", m(6), num(r.randrange(3))]
        return m(k)
    for _ in range(8):
        if r.random() < .3 or _ == 0: st.append(dict(op="expr", e=["=", ["v", q], ["&", ["v", r.choice([g, l])]]]))
        x = r.random()
        if x < .6: e = ["=", lv(), num(r.randint(1, 300))]
        elif x < .8: e = ["o=", r.choice(["+", "|", "^"]), lv(), num(r.randint(1, 99))]
        else: e = ["post", "+", lv()]
        st.append(dict(op="try", o=1, e=["c", I64, e], cls="i"))
        x = lv(); st.append(dict(op="try", o=1, e=["c", I64, x], cls="i"))
    for v in (g, l):
        # only the neighbourhood of the far members, and the start
        for off in (0, n - 12): st.append(dict(op="dumpp", e=["b", "+", [".", ["v", v], 1], num(off)], n=28, id=1) if off else dict(op="dumpp", e=[".", ["v", v], 1], n=16, id=2))
    p.finish(loc, dict(op="block", ch=st))
    return p
