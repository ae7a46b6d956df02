"""Pointers, arrays, VLAs, alloca: programs for C17."""
from gen import *

FL = [F32, F64, F128]
class Ptr:
    """random histories of pointer operations over arrays and VLAs"""
    def __init__(self, rng, nst=14):
        r, p = rng, Prog()
        self.r, self.p = r, p
        self.tg = []
        for _ in range(r.randint(1, 2)):
            self.tg.append(p.tag([(r.choice([I8, U8, I16, I32, I64, F64, ["a", U8, r.randint(1, 5)], ["a", I16, 3]]), -1, 0, 1) for _ in range(r.randint(1, 4))]))
        self.objs, self.loc = [], []
        for _ in range(r.randint(1, 3)):
            t = self.arr(); self.objs.append((p.gvar(t), t))
        self.idx = [p.gvar(t) for t in (I8, U8, I16, U16, I32, U32, I64, U64)]
        st = []
        for v in self.idx:
            t = p.vars[v-1]["t"]
            st.append(dict(op="setb", v=v, b=i2w(r.choice([0, 1, 1, 2, 3] + ([-1, -2] if t[2] else [])))[:t[1]]))
        for _ in range(r.randint(1, 3)):
            t = self.arr(); v = p.lvar(t); self.loc.append(v); self.objs.append((v, t))
        for v, t in self.objs: st.append(dict(op="fill", v=v, s=r.randint(0, 255)))
        self.blocks = []                      # alloca'd: (ptr var, bytes)
        self.ptrs = []                        # (var, target type)
        for _ in range(r.randint(1, 3)): self.vla(st)
        for _ in range(r.randint(0, 2)): self.alloc(st)
        for _ in range(r.randint(3, 6)): self.mkptr(st)
        for _ in range(nst):
            k = r.random()
            if k < .06: self.vla(st)
            elif k < .1: self.alloc(st)
            elif k < .16: self.mkptr(st)
            else: st.append(self.stmt())
            if r.random() < .3: st += self.dumps()
        st += self.dumps()
        p.finish(self.loc, dict(op="block", ch=st))
    def elem(self):
        r = self.r
        k = r.random()
        return r.choice(self.tg) if k < .3 else r.choice(FL) if k < .4 else r.choice(ALLINTS[1:])
    def arr(self):
        r = self.r
        t = self.elem()
        for _ in range(r.choice([1, 1, 2, 2, 3])): t = ["a", t, r.randint(1, 4)]
        return t
    def vla(self, st):
        r, p = self.r, self.p
        b = self.elem()
        nd = r.choice([1, 1, 2, 3])
        dims, sz = [], []
        cv = r.randrange(nd)
        for i in range(nd):
            n = r.randint(1, 4)
            sz.append(n)
            if i == cv or r.random() < .5:
                # n as an expression the compiler cannot fold
                v = ["v", r.choice(self.idx)]
                dims.append(r.choice([["b", "+", ["b", "&", v, num(0)], num(n)], ["b", "+", ["b", "*", v, num(0)], num(n)], ["c", r.choice([U8, I16, U64, I8]), ["b", "+", ["b", "^", v, v], num(n)]]]))
            else: dims.append(num(n))
        t = b
        for n in reversed(sz): t = ["a", t, n]
        v = p.lvar(t)
        k = r.random()
        if k < .2:
            td = v
            st.append(dict(op="vla", v=td, t=b, dims=dims, kind="typedef"))
            st.append(dict(op="try", e=["post", r.choice("+-"), ["v", r.choice(self.idx)]], o=0))
            v = p.lvar(t)
            st.append(dict(op="vlad", v=v, of=td))
            st.append(dict(op="try", e=["sz", ["v", td]], o=1, cls="i"))
        else: st.append(dict(op="vla", v=v, t=b, dims=dims, kind="obj"))
        st.append(dict(op="fill", v=v, s=r.randint(0, 255)))
        self.objs.append((v, t))
        if len(sz) > 1 and r.random() < .7:       # a pointer to its rows
            q = p.lvar(["p", t[1]])
            st.append(dict(op="vla", v=q, t=b, dims=dims[1:], kind="ptr"))
            st.append(dict(op="expr", e=["=", ["v", q], ["v", v]]))
            self.ptrs.append((q, t[1]))
    def alloc(self, st):
        r, p = self.r, self.p
        t = r.choice([I8, I16, I32, I64, F64, U8])
        n = r.randint(1, 5)
        v = p.lvar(["p", t]); self.loc.append(v)
        st.append(dict(op="alloca", v=v, e=["b", "+", ["b", "&", ["v", r.choice(self.idx)], num(0)], num(n * t[1])]))
        st.append(dict(op="fillp", e=["v", v], n=n * t[1], s=r.randint(0, 255)))
        self.blocks.append((v, n * t[1]))
        w = p.lvar(["p", t]); self.loc.append(w)
        st.append(dict(op="expr", e=["=", ["v", w], ["v", v]]))
        self.ptrs.append((w, t))
    def target(self):
        """an array-typed or element lvalue of some object, and its type"""
        r = self.r
        v, t = r.choice(self.objs)
        e = ["v", v]
        while t[0] == "a" and r.random() < .7:
            e, t = ["[]", e, num(r.randrange(t[2]))], t[1]
        return e, t
    def mkptr(self, st):
        r, p = self.r, self.p
        for _ in range(20):
            e, t = self.target()
            if t[0] == "a":
                u, val = t[1], e                       # decay
            else: u, val = t, ["&", e]
            if t[0] == "s" and r.random() < .5: continue
            # &array is a pointer to the element in toycc, by design: not used
            v = p.lvar(["p", u]); self.loc.append(v)
            if r.random() < .3: val = ["b", "+", val, self.ix()]
            st.append(dict(op="expr", e=["=", ["v", v], e if t[0] == "a" else ["&", e]]))
            if val[0] == "b": st.append(dict(op="try", e=["=", ["v", v], val], o=0))
            self.ptrs.append((v, u))
            return
    def ix(self):
        r = self.r
        k = r.random()
        if k < .45: return ["v", r.choice(self.idx)]
        if k < .75: return num(r.randint(-3, 4))
        if k < .85: return num(r.randint(0, 3), r.choice([U32, I64, U64]))
        return ["b", r.choice("+-"), ["v", r.choice(self.idx)], num(r.randint(0, 3))]
    def access(self):
        """a scalar lvalue reached through a pointer or an array: (e, type)"""
        r = self.r
        if self.ptrs and r.random() < .65:
            v, t = r.choice(self.ptrs)
            pe = ["v", v]
            k = r.random()
            if k < .12: pe = [r.choice(["pre", "post"]), r.choice("+-"), pe]
            elif k < .2: pe = ["o=", r.choice("+-"), pe, self.ix()]
            elif k < .3: pe = ["b", "+", self.ix(), pe]
            elif k < .4: pe = ["b", r.choice("+-"), pe, self.ix()]
            elif k < .45:
                q = [x for x, u in self.ptrs if u == t]
                pe = ["?", ["v", r.choice(self.idx)], pe, ["v", r.choice(q)]]
            k = r.random()
            e = ["*", pe] if k < .4 else ["[]", self.ix(), pe] if k < .5 else ["[]", pe, self.ix()]
        else:
            v, t = r.choice(self.objs)
            e = ["v", v]
        while t[0] == "a":
            i = self.ix() if r.random() < .3 else num(r.randrange(t[2]))
            k = r.random()
            e = ["[]", e, i] if k < .7 else ["*", ["b", "+", e, i]] if k < .9 else ["[]", i, e]
            t = t[1]
        if t[0] == "s":
            ms = self.p.tags[t[1]-1]["mem"]
            k = r.randrange(len(ms)) + 1
            t = ms[k-1]["t"]
            e = ["->", e[1], k] if e[0] == "*" and r.random() < .6 else [".", e, k]
            if t[0] == "a": e, t = ["[]", e, num(r.randrange(t[2]))], t[1]
        return e, t
    def stmt(self):
        r = self.r
        k = r.random()
        if k < .25:
            e, t = self.access()
            return dict(op="try", e=e, o=1, cls="f" if t[0] == "f" else "i")
        if k < .5:
            e, t = self.access()
            if t[0] == "f": return dict(op="try", e=["=", e, num(r.randint(-9, 99))], o=1, cls="f")
            a = ["=", e, num(r.randint(-300, 300))] if r.random() < .6 else ["o=", r.choice("+-^"), e, num(r.randint(0, 9))]
            return dict(op="try", e=a, o=1, cls="i")
        if k < .75:
            v, t = r.choice(self.ptrs)
            k = r.random()
            if k < .35: return dict(op="try", e=["o=", r.choice("+-"), ["v", v], self.ix()], o=0)
            if k < .55: return dict(op="try", e=[r.choice(["pre", "post"]), r.choice("+-"), ["v", v]], o=0)
            q = [x for x, u in self.ptrs if u == t]
            if k < .7: return dict(op="try", e=["=", ["v", v], ["b", "+", ["v", r.choice(q)], self.ix()]], o=0)
            if k < .8: return dict(op="try", e=["=", ["v", v], ["?", ["v", r.choice(self.idx)], ["v", r.choice(q)], ["v", v]]], o=0)
            w = r.choice(q)
            if k < .9: return dict(op="try", e=["b", "-", ["v", v], ["v", w]], o=1, cls="i")
            return dict(op="try", e=["b", r.choice(["<", ">", "<=", ">=", "==", "!="]), ["v", v], ["v", w]], o=1, cls="i")
        if k < .85:
            e, t = self.target()
            if r.random() < .3:
                v, t = r.choice(self.ptrs)
                return dict(op="try", e=r.choice([["sz", ["*", ["v", v]]], ["sz", ["v", v]], ["sz", ["[]", ["v", v], num(0)]]]), o=1, cls="i")
            return dict(op="try", e=["sz", e], o=1, cls="i")
        if k < .93:                   # differences inside one array
            v, t = r.choice(self.objs)
            n = t[2]
            a, b = (["&", ["[]", ["v", v], num(r.randrange(n))]] if t[1][0] != "a" else ["b", "+", ["v", v], num(r.randint(0, n))] for _ in "ab")
            if r.random() < .3: a = ["b", "+", ["v", v], self.ix()]
            op = r.choice(["-", "-", "-", "<", ">", "<=", ">=", "==", "!="])
            return dict(op="try", e=["b", op, a, b], o=1, cls="i")
        return dict(op="try", e=["=", ["v", r.choice(self.idx)], num(r.randint(0, 3))], o=0)
    def dumps(self):
        return [dict(op="dump", v=v, id=v) for v, t in self.objs] + [dict(op="dumpp", e=["v", v], n=n, id=v) for v, n in self.blocks]

def ptr_prog(rng): return Ptr(rng).p

def loop_prog(rng):
    """VLAs and alloca blocks made in a loop: all alloca blocks stay alive and apart"""
    r, p = rng, Prog()
    et = r.choice([I8, I16, I32, I64])
    N = r.randint(2, 5)
    i = p.lvar(r.choice([I32, U8, I64])); x = p.lvar(I32)
    ps = p.lvar(["a", ["p", et], N])
    a = p.lvar(["a", et, r.randint(1, 6)])
    v = p.lvar(["a", et, 1]); w = p.lvar(["a", et, 1]); t1 = p.lvar(["p", et])
    P = lambda k: ["[]", ["v", ps], k]
    body = [dict(op="vla", v=v, t=et, dims=[["b", "+", ["v", i], num(r.randint(1, 3))]], kind="obj"),
            dict(op="fill", v=v, s=r.randint(0, 99)),
            dict(op="alloca", v=t1, e=["b", "*", ["b", "+", ["v", i], num(1)], num(et[1])]),
            dict(op="expr", e=["=", P(["v", i]), ["v", t1]]),
            dict(op="fillp", e=["v", t1], n=et[1], s=r.randint(100, 255)),
            dict(op="dump", v=v, id=1)]
    if r.random() < .5:
        body.append(dict(op="block", ch=[dict(op="vla", v=w, t=et, dims=[["b", "+", ["v", i], num(2)], ["b", "+", ["v", i], num(1)]], kind="obj"),
                                         dict(op="fill", v=w, s=77), dict(op="out", e=["sz", ["v", w]], cls="i"), dict(op="out", e=["sz", ["[]", ["v", w], num(0)]], cls="i"),
                                         dict(op="dump", v=v, id=2)]))
    body.append(dict(op="out", e=["sz", ["v", v]], cls="i"))
    if r.random() < .5:
        body.append(dict(op="if", c=["b", "==", ["v", i], num(r.randint(0, N))], t=dict(op="continue"), els=None))
    body.append(dict(op="fill", v=a, s=r.randint(0, 255)))
    st = [dict(op="fill", v=a, s=3), dict(op="expr", e=["=", ["v", x], num(5)]),
          dict(op="for", i=["=", ["v", i], num(0)], c=["b", "<", ["v", i], num(N)], n=["post", "+", ["v", i]], b=dict(op="block", ch=body))]
    for k in range(N):
        st.append(dict(op="dumpp", e=P(num(k)), n=et[1], id=10 + k))
    st += [dict(op="dump", v=a, id=30), dict(op="out", e=["v", x], cls="i")]
    p.finish([i, x, ps, a, t1], dict(op="block", ch=st))
    return p

def rec_prog(rng):
    """recursion: each frame has its own locals, VLA and alloca block"""
    r, p = rng, Prog()
    et = r.choice([I8, I16, I32, I64])
    big = r.choice([0, 0, 600, 2100])
    n, q = p.lvar(r.choice([I32, I16, U8])), p.lvar(["p", et])
    l1 = p.lvar(["a", et, r.randint(1, 5)]); pad = p.lvar(["a", U8, big]) if big else None
    v, al, l2 = p.lvar(["a", et, 1]), p.lvar(["p", U8]), p.lvar(et)
    b = r.randint(1, 20)
    pre = [dict(op="fill", v=l1, s=r.randint(0, 255)),
           dict(op="vla", v=v, t=et, dims=[["b", "+", ["v", n], num(r.randint(1, 3))]], kind="obj"),
           dict(op="fill", v=v, s=r.randint(0, 255)),
           dict(op="alloca", v=al, e=["b", "+", ["v", n], num(b)]),
           dict(op="fillp", e=["v", al], n=b, s=r.randint(0, 255)),
           dict(op="expr", e=["=", ["v", l2], ["b", "*", ["v", n], num(3)]])]
    if pad: pre.append(dict(op="expr", e=["=", ["[]", ["v", pad], num(big - 1)], ["v", n]]))
    r.shuffle(pre[3:])
    post = [dict(op="dump", v=l1, id=1), dict(op="dump", v=v, id=2), dict(op="dumpp", e=["v", al], n=b, id=3),
            dict(op="out", e=["v", l2], cls="i"),
            dict(op="expr", e=["o=", "+", ["*", ["v", q]], num(1)]), dict(op="out", e=["*", ["v", q]], cls="i")]
    if pad: post.append(dict(op="out", e=["[]", ["v", pad], num(big - 1)], cls="i"))
    me = 1
    call = dict(op="call", f=me, args=[["b", "-", ["v", n], num(1)], r.choice([["v", v], ["v", l1], ["&", ["v", l2]]])], dst=["v", l2] if r.random() < .6 else [])
    body = pre + [dict(op="if", c=["b", ">", ["v", n], num(0)], t=call, els=None)] + post + [dict(op="return", e=["b", "+", ["v", l2], num(1)])]
    p.funcs.append(dict(name="rec", kind="s", par=[n, q], loc=[x for x in (l1, pad, al, l2) if x], ret=I32, bodys=dict(op="block", ch=body)))
    m = p.lvar(et); o = p.lvar(I32)
    st = [dict(op="expr", e=["=", ["v", m], num(1)]),
          dict(op="call", f=me, args=[num(r.randint(1, 4)), ["&", ["v", m]]], dst=["v", o]), dict(op="out", e=["v", o], cls="i"), dict(op="out", e=["v", m], cls="i")]
    p.finish([m, o], dict(op="block", ch=st))
    return p

def big_prog(rng):
    """objects and members beyond the reach of a 12-bit offset, in frames and structs"""
    r, p = rng, Prog()
    n1, n2 = r.choice([2030, 2044, 2048, 2060, 4093, 4100]), r.choice([1, 8, 2000, 2047, 2500])
    t = r.choice(ALLINTS[1:] + FL)
    S = p.tag([(["a", U8, n1], -1, 0, 1), (t, -1, 0, 1), (I32, r.randint(1, 31), 0, 1), (I32, r.randint(1, 20), 0, 1), (["a", I16, 3], -1, 0, 1), (U8, -1, 0, 1)])
    g = p.gvar(S)
    l0, l1, l2, l3, pa = p.lvar(t), p.lvar(["a", U8, n2]), p.lvar(S), p.lvar(I64), p.lvar(["p", S])
    l4 = p.lvar(["a", t, 2])
    st = [dict(op="fill", v=g, s=9), dict(op="fill", v=l2, s=200), dict(op="fill", v=l4, s=60 if t[0] == "i" else 16), dict(op="setb", v=l0, b=[7] * 16), dict(op="setb", v=l3, b=[3] * 8)]
    c = "f" if t[0] == "f" else "i"
    st.append(dict(op="expr", e=["=", ["v", pa], ["&", ["v", r.choice([g, l2])]]]))
    def lv():
        b = r.choice([["v", g], ["v", l2], ["*", ["v", pa]]])
        k = r.randint(1, 6)
        m = ["->", b[1], k] if b[0] == "*" else [".", b, k]
        if k == 1: return ["[]", m, num(r.choice([0, n1 - 1, n1 // 2, 2047 if n1 > 2047 else 5]))], "i"
        if k == 5: return ["[]", m, num(r.randrange(3))], "i"
        return m, c if k == 2 else "i"
    for _ in range(14):
        k = r.random()
        e, cl = lv()
        if k < .3: st.append(dict(op="try", e=e, o=1, cls=cl))
        elif k < .75: st.append(dict(op="try", e=r.choice([["=", e, num(r.randint(0, 99))], ["o=", "+", e, num(3)], ["post", "+", e]]), o=1, cls=cl))
        elif k < .8: st.append(dict(op="try", e=["=", ["v", g], ["v", l2]], o=0))
        elif k < .85: st.append(dict(op="try", e=["=", ["[]", ["v", l1], num(r.randrange(n2))], num(r.randint(0, 255))], o=1, cls="i"))
        elif k < .9: st.append(dict(op="try", e=["=", ["v", l2], ["*", ["v", pa]]], o=0))
        else: st.append(dict(op="try", e=["=", ["v", l0], num(r.randint(0, 100))], o=1, cls=c))
        st += [dict(op="try", e=["v", l0], o=1, cls=c), dict(op="out", e=["v", l3], cls="i"), dict(op="dump", v=l4, id=5)]
    st += [dict(op="dump", v=g, id=6), dict(op="dump", v=l2, id=7)]
    p.finish([l0, l1, l2, l3, pa, l4], dict(op="block", ch=st))
    return p
