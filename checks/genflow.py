"""Random control-flow programs: nested statements, switches, gotos, calls."""
from gen import *

def wrap(v, t):
    lo, hi = irange(t)
    n = 1 << (8 * t[1])
    v %= n
    return v - n if t[2] and v > hi else v

def promote(t): return I32 if t[3] < 3 else t

class Flow:
    def __init__(self, rng, size):
        self.r, self.p = rng, Prog()
        p = self.p
        self.fuel = p.gvar(I32)
        self.log = p.gvar(U64)
        self.g = [p.gvar(t) for t in (I32, U8, I64)]
        self.tid = 0
        self.inside = False
        self.size = size
        nf = rng.randint(0, 2)
        self.fn = []
        for i in range(nf):
            self.func(i, size // 2)
        loc, body = self.body(size, main=True)
        p.finish(loc, body)

    def num(self, v, t=I32): return num(v, t)
    def V(self, v): return ["v", v]

    def func(self, i, size):
        p, r = self.p, self.r
        par = [p.lvar(r.choice([I32, I64, U8]))for _ in range(r.randint(0, 2))]
        f = dict(name="f", kind="s", par=par, loc=[], ret=r.choice([I32, I64, U8, I16]), bodys=None)
        p.funcs.append(f)
        self.fn.append(len(p.funcs))
        loc, body = self.body(size, par=par, ret=f["ret"])
        f["loc"] = loc
        f["bodys"] = body

    def body(self, size, main=False, par=(), ret=None):
        p, r = self.p, self.r
        self.ret, self.main = ret, main
        self.labels, self.gotos = [], []
        self.loc = [p.lvar(t) for t in (I32, U32, I64, F64, F32, BOOL, I16)]
        self.scal = list(self.loc) + list(par) + self.g
        self.ints = [v for v in self.scal if p.vars[v-1]["t"][0] == "i"]
        allloc = list(self.loc)
        self.allloc = allloc
        self.budget = size
        st = []
        if main:
            st.append(dict(op="setb", v=self.fuel, b=i2w(r.randint(8, 40))[:4]))
            for v in self.g:
                t = p.vars[v-1]["t"]
                st.append(dict(op="setb", v=v, b=i2w(interesting(r, t))[:t[1]]))
        for v in self.loc:
            t = p.vars[v-1]["t"]
            if t[0] == "f": b = fbytes(r.choice([0.0, -0.0, 0.5, -1.0, 3.0, 1e-30]), t[1])
            else: b = i2w(r.choice([interesting(r, t), r.randint(0, 7)]) & (2**(8*t[1])-1) if t != BOOL else r.randint(0, 1))[:t[1]]
            st.append(dict(op="setb", v=v, b=b))
        blk = dict(op="block", ch=st)
        while self.budget > 0 or len(st) < 8:
            st.append(self.stmt(3, [], None))
        st.append(self.trace())
        st.append(dict(op="out", e=self.V(self.log)))
        # resolve gotos: bounded by fuel unless forward is unknown
        labs = self.labels
        for g in self.gotos:
            if not labs:
                l = dict(op="label", b=self.trace()); labs.append(l); st.append(l)
            if g["op"] == "goto": g["to"] = r.choice(labs)
            else:
                g["tos"] = [r.choice(labs) for _ in range(r.choice([1, 2, 4]))]
                n = len(g["tos"])
                g["e"] = ["b", "&", self.V(self.loc[0]), num(n - 1)]
        if not main:
            st.append(dict(op="return", e=self.iexpr(2)))
        return allloc, blk

    def trace(self):
        self.tid += 1
        return dict(op="trace", id=self.tid)

    # expressions -------------------------------------------------------
    def logged(self, e):
        """(log = log * 31 + id, e)"""
        self.tid += 1
        return ["b", ",", ["=", self.V(self.log), ["b", "+", ["b", "*", self.V(self.log), ["n", U64, i2w(31)]], num(self.tid)]], e]
    def iexpr(self, d):
        leaves = [self.V(v) for v in self.ints]
        eg = EG(self.r, leaves)
        e = eg.e(d)
        # keep it defined: arithmetic on unsigned
        return e
    def safe(self):
        """an integer expression that is always defined"""
        r = self.r
        v = self.V(r.choice(self.ints))
        k = r.random()
        if k < .25: return v
        if k < .45: return ["b", "&", v, num(r.choice([1, 3, 7, 15]))]
        if k < .6: return ["b", "^", v, self.V(r.choice(self.ints))]
        if k < .75: return ["c", r.choice([U8, I8, U32, I32, I64]), v]
        if k < .9: return ["b", r.choice(["+", "-"]), ["c", r.choice([U32, U64]), v], num(r.randint(0, 9))]
        return num(r.randint(0, 5))
    def cond(self, d=2):
        r = self.r
        if d <= 0 or r.random() < .3:
            k = r.random()
            if k < .25: return self.V(r.choice(self.scal))
            if k < .5: return ["b", r.choice(["<", ">", "<=", ">=", "==", "!="]), self.safe(), self.safe()]
            if k < .6: return ["u", "!", self.V(r.choice(self.scal))]
            if k < .7: return ["&", self.V(r.choice(self.loc))]
            return self.safe()
        k = r.random()
        if k < .3: return ["b", "&&", self.cond(d-1), self.cond(d-1)]
        if k < .6: return ["b", "||", self.cond(d-1), self.cond(d-1)]
        if k < .75:
            return ["?", self.cond(d-1), self.logged(self.safe()), self.logged(self.safe())]
        if k < .9: return self.logged(self.cond(d-1))
        if k < .95: return ["u", "!", self.cond(d-1)]
        return ["se", [self.logged(num(0)), ["=", self.V(self.loc[2]), self.safe()], self.logged(self.safe())]]
    def fuelled(self, c):
        return ["b", "&&", ["b", ">", ["post", "-", self.V(self.fuel)], num(0)], c]

    # statements --------------------------------------------------------
    def update(self):
        r, p = self.r, self.p
        v = r.choice(self.loc + self.g)
        t = p.vars[v-1]["t"]
        if t[0] == "f" or t == BOOL:
            e = self.cond(1)
            return dict(op="expr", e=["=", self.V(v), e if t == BOOL else ["u", "!", e]])
        k = r.random()
        if k < .5: return dict(op="expr", e=["=", self.V(v), self.safe()])
        if k < .8: return dict(op="expr", e=["o=", r.choice(["^", "|", "&"]), self.V(v), self.safe()])
        return dict(op="expr", e=["=", self.V(v), self.logged(["b", "+", ["c", U64, self.V(v)], num(1)])])
    def stmt(self, d, encl, sw):
        """encl: list of enclosing loop/switch kinds; sw: enclosing switch's label recorder"""
        r = self.r
        self.budget -= 1
        if d <= 0:
            k = r.random()
            s = self.trace() if k < .5 else self.update() if k < .8 else self.jump(encl)
            return self.maybe_label(s, sw)
        k = r.random()
        if k < .16: s = self.trace()
        elif k < .26: s = self.update()
        elif k < .40:
            s = dict(op="block", ch=[self.stmt(d-1, encl, sw) for _ in range(r.randint(0, 4))])
        elif k < .54:
            s = dict(op="if", c=self.cond(), t=self.blockish(d-1, encl, sw), els=self.blockish(d-1, encl, sw) if r.random() < .5 else 0)
        elif k < .62:
            s = dict(op="while", c=self.fuelled(self.cond()), b=self.blockish(d-1, encl + ["loop"], sw))
        elif k < .69:
            s = dict(op="do", b=self.blockish(d-1, encl + ["loop"], sw), c=self.fuelled(self.cond()))
        elif k < .78:
            s = self.forst(d, encl, sw)
        elif k < .90:
            s = self.switch(d, encl)
        elif k < .92:
            s = self.sexp(d)
        elif k < .95 and self.fn:
            f = r.choice(self.fn)
            if f == len(self.p.funcs) and not self.main:
                # recursion, bounded by the fuel
                s = dict(op="if", c=self.fuelled(num(1)), t=self.call(f), els=0)
            else: s = self.call(f)
        else: s = self.jump(encl)
        return self.maybe_label(s, sw)
    def sexp(self, d):
        """lv = ({ statements; e; }): in the model simply a block"""
        r = self.r
        old, self.inside = self.inside, True
        ch = [self.stmt(d-1, [], None) for _ in range(r.randint(1, 3))]
        self.inside = old
        lv = self.V(r.choice([v for v in self.loc + self.g if self.p.vars[v-1]["t"][0] == "i"]))
        ch.append(dict(op="expr", e=["=", lv, self.safe()], _w=1))
        return dict(op="block", ch=ch, _sexp=1)
    def call(self, f):
        fn = self.p.funcs[f-1]
        dst = self.V(self.r.choice([v for v in self.loc + self.g])) if self.r.random() < .7 else []
        return dict(op="call", f=f, args=[self.safe() for _ in fn["par"]], dst=dst)
    def forst(self, d, encl, sw):
        r = self.r
        v = self.p.lvar(r.choice([I32, U8, I64])); self.allloc.append(v)
        n = r.randint(1, 4)
        saved = self.ints, self.scal
        decl = r.random() < .5
        i = ["=", self.V(v), num(0)] if decl or r.random() < .8 else []
        c = self.fuelled(["b", "<", self.V(v), num(n)]) if r.random() < .9 else []
        inc = r.choice([["pre", "+", self.V(v)], ["post", "+", self.V(v)], ["o=", "+", self.V(v), num(1)], ["b", ",", self.logged(num(0)), ["post", "+", self.V(v)]]])
        if not i:
            # starts from a known variable
            return dict(op="block", ch=[dict(op="expr", e=["=", self.V(v), num(0)]), self.mkfor(v, i, c, inc, d, encl, sw, 0)])
        s = self.mkfor(v, i, c, inc, d, encl, sw, 1 if decl else 0)
        return s
    def mkfor(self, v, i, c, inc, d, encl, sw, decl):
        # the loop variable is visible in the body only when jumps cannot skip its initialisation matters little: undefined runs are dropped
        b = self.blockish(d-1, encl + ["loop"], None if decl and self.r.random() < .5 else sw)
        if not c:
            # endless loop: leave it explicitly
            b = dict(op="block", ch=[dict(op="if", c=["b", "<=", ["post", "-", self.V(self.fuel)], num(0)], t=dict(op="break"), els=0), b])
        return dict(op="for", i=i, c=c, n=inc, b=b, fd=v if decl else 0)
    def blockish(self, d, encl, sw):
        if self.r.random() < .7:
            return dict(op="block", ch=[self.stmt(d, encl, sw) for _ in range(self.r.randint(1, 4))])
        return self.stmt(d, encl, sw)
    def maybe_label(self, s, sw):
        r = self.r
        if sw is not None and r.random() < sw["rate"]:
            s = self.case(s, sw)
            if r.random() < .25: s = self.case(s, sw)
        if r.random() < .06 and not self.inside:
            s = dict(op="label", b=s)
            self.labels.append(s)
        return s
    def case(self, s, sw):
        r = self.r
        if not sw["default"] and r.random() < .2:
            sw["default"] = True
            return dict(op="default", b=s)
        t = sw["t"]
        for _ in range(8):
            ct = r.choice([I32, I32, t if t[3] >= 3 else I32, I64, U32])
            v = sw["near"] + r.randint(-3, 4) if r.random() < .75 else interesting(r, ct)
            lo, hi = irange(ct)
            if not lo <= v <= hi: continue
            a = wrap(v, t)
            b, e2 = a, None
            if r.random() < .3:
                w = v + r.choice([1, 2, 5, 300, 2**31, 2**33])
                if w > hi: continue
                b = wrap(w, t)
                if b < a: continue
                e2 = num(w, ct)
            if any(not (b < x or a > y) for x, y in sw["used"]): continue
            sw["used"].append((a, b))
            e1 = num(v, ct)
            return dict(op="case", lo=e1, hi=e2 or e1, b=s)
        return s
    def switch(self, d, encl):
        r, p = self.r, self.p
        k = r.random()
        if k < .6:
            v = r.choice(self.ints); e = self.V(v); t = promote(p.vars[v-1]["t"])
            if r.random() < .5 and r.random() < .9:
                e = ["b", "&", e, num(r.choice([3, 7]))]
                t = t if t[3] >= 3 else I32
        else:
            ct = r.choice([U8, I8, I16, U16, I32, U32, I64, U64])
            e = ["c", ct, self.safe()]; t = promote(ct)
        if r.random() < .2: e = self.logged(e)
        near = r.choice([0, 0, 0, 2, -1, 128, 255, 2**31, 2**31-1, -2**31, 2**32, 2**32-1])
        sw = dict(t=t, used=[], default=False, rate=.75, near=near)
        pre = []
        if r.random() < .6:
            # make the value likely to hit
            x = self.loc[2]
            pre = [dict(op="expr", e=["=", self.V(x), ["b", "+", ["b", "&", self.V(r.choice(self.ints)), num(3)], num(near - 1 if near else 0, I64)]])]
            ct = r.choice([I64, U64, U32, I32]) if abs(near) > 200 else r.choice([U8, I8, I32, I16, I64, U32])
            e = ["c", ct, self.V(x)]; sw["t"] = promote(ct)
        if r.random() < .9:
            b = dict(op="block", ch=[self.stmt(d-1, encl + ["switch"], sw) for _ in range(r.randint(1, 6))])
        else: b = self.stmt(d-1, encl + ["switch"], sw)
        if r.random() < .7 and b["op"] == "block":
            # a break somewhere between the cases
            b["ch"].insert(r.randint(0, len(b["ch"])), dict(op="break"))
        s = dict(op="switch", e=e, b=b)
        return dict(op="block", ch=pre + [s]) if pre else s
    def jump(self, encl):
        r = self.r
        k = r.random()
        if encl and k < .3: return dict(op="break")
        if "loop" in encl and k < .6: return dict(op="continue")
        if k < .85 and not self.inside:
            g = dict(op="goto", to=None) if r.random() < .7 else dict(op="cgoto", e=None, tos=None)
            self.gotos.append(g)
            return dict(op="if", c=self.fuelled(self.cond(1)), t=g, els=0)
        if self.main or k < .95 or self.inside: return self.trace()
        return dict(op="return", e=self.safe())

def flow_prog(rng, size):
    return Flow(rng, size).p
