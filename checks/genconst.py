"""Constant expressions in every position where the compiler evaluates them."""
from gen import *
from genflt import *

def pp_expr(r, d):
    """#if arithmetic: intmax_t and uintmax_t operands only"""
    if d <= 0 or r.random() < .15:
        t = r.choice([I64, I64, I64, U64])
        v = abs(interesting(r, t))
        lo, hi = irange(t)
        return ["n", t, i2w(min(v, hi))]
    k = r.random()
    if k < .7:
        op = r.choice(BINOPS)
        a, b = pp_expr(r, d-1), pp_expr(r, d-1)
        if op in ("<<", ">>"): b = ["n", I64, i2w(r.randint(0, 63))]
        if op in ("/", "%") and r.random() < .7: b = ["b", "|", b, ["n", I64, i2w(1)]]
        e = ["b", op, a, b]
    elif k < .88: e = ["u", r.choice("-~!+"), pp_expr(r, d-1)]
    else: e = ["?", pp_expr(r, d-1), pp_expr(r, d-1), pp_expr(r, d-1)]
    return e
def pp_type(e):
    """#if comparisons and logical operators yield (int, which is) intmax_t: wrap them so the model agrees"""
    if e[0] == "b":
        x = ["b", e[1], pp_type(e[2]), pp_type(e[3])]
        if e[1] in ("<", ">", "<=", ">=", "==", "!=", "&&", "||"): return ["c", I64, x]
        return x
    if e[0] == "u":
        x = ["u", e[1], pp_type(e[2])]
        return ["c", I64, x] if e[1] == "!" else x
    if e[0] == "?": return ["?"] + [pp_type(x) for x in e[1:]]
    return e

def const_prog(r, n=8):
    p = Prog(); p.consts = True
    arr = p.gvar(["a", r.choice([U8, I16, I32, U64]), 8])
    t1 = p.tag([(I8, -1, 0, 1), (["a", I32, 3], -1, 0, 1), (U16, -1, 0, 1), (I64, -1, 0, 1)])
    sv = p.gvar(["a", t1, 3])
    st = [dict(op="setb", v=arr, b=[0]*64), dict(op="setb", v=sv, b=[0]*256)]
    mg = MG(r, [], [], types=[F32, F64])
    mg.eg.small = lambda: num(r.randint(0, 40))
    for _ in range(n):
        d = r.randint(1, 4)
        c = r.choice(["init", "init", "ginit", "enum", "arr", "arrt", "desig", "align", "bf", "case", "range", "if", "if", "f", "f", "ld", "addr"])
        s = dict(op="try", o=1, _ctx=c, cls="i")
        src = r.choice([mg.eg.e, mg.eg.e, mg.ie])
        if c in ("init", "ginit"): s["e"] = ["c", r.choice(ALLINTS), src(d) if r.random() < .8 else mg.fe(d-1)]
        elif c == "enum": s["e"] = ["c", I32, src(d)]
        elif c in ("arr", "arrt"): s["e"] = ["b", "+", ["b", "&", ["c", U64, src(d)], num(63)], num(1)]
        elif c == "desig": s["e"] = ["b", "&", ["c", U64, src(d)], num(31)]
        elif c == "align": s["e"] = ["b", "<<", ["n", U64, i2w(1)], ["b", "&", src(d), num(3)]]
        elif c == "bf": s["e"] = ["b", "+", ["b", "&", ["c", U64, src(d)], num(15)], num(1)]
        elif c in ("case", "range"):
            t = r.choice([I32, U32, I64, U64])
            s["e"] = ["c", t, src(d)]; s["_t"] = t
        elif c == "if":
            s["e"] = pp_type(pp_expr(r, d))
        elif c == "f":
            s["e"] = ["c", r.choice([F32, F64]), r.choice([mg.fe, mg.fe, mg.ie])(d)]; s["cls"] = "f"
        elif c == "ld":
            mg2 = MG(r, [], [], types=FLTS, smallonly=True)
            # exact results only: the folder has the precision of the host's long double
            mg2.ie = lambda d: ["b", r.choice(["<", ">=", "=="]), mg2.fleaf(), mg2.fleaf()] if r.random() < .4 else num(r.randint(0, 50))
            s["e"] = ["c", F128, mg2.fe(2) if r.random() < .7 else src(2)]; s["cls"] = "f"
        elif c == "addr":
            t = p.vars[arr-1]["t"][1]
            if r.random() < .5:
                i = r.randrange(8); j = r.randrange(8)
                a = r.choice([["&", ["[]", ["v", arr], num(i)]], ["b", "+", ["v", arr], num(i)], ["b", "+", num(i), ["v", arr]],
                              ["b", "-", ["&", ["[]", ["v", arr], num(max(i, j))]], num(max(i, j) - i)],
                              ["b", "+", ["b", "-", ["v", arr], num(0)], ["c", r.choice([U8, I64, I32]), num(i)]]])
            else:
                i, j = r.randrange(3), r.randrange(3)
                k, t = r.choice([(1, I8), (2, I32), (3, U16), (4, I64)])
                el = ["[]", ["v", sv], num(i)] if r.random() < .5 else ["*", ["b", "+", ["v", sv], num(i)]]
                m = [".", el, k] if el[0] == "[]" or r.random() < .5 else ["->", el[1], k]
                if k == 2:
                    a = r.choice([["&", ["[]", m, num(j)]], ["b", "+", m, num(j)], m])
                else: a = ["&", m]
            w = r.random()
            if w < .12: a = ["b", ",", num(r.randint(0, 9)), a]
            elif w < .24: a = r.choice([["?", mg.eg.const(), a, a], ["?", num(1), a, ["&", ["[]", ["v", arr], num(0)]]] if t == p.vars[arr-1]["t"][1] else ["?", num(0), a, a]])
            elif w < .36: a = ["c", ["p", t], ["c", ["p", U8], a]]
            elif w < .48:
                a = ["c", ["p", t], ["b", "-", ["c", r.choice([I64, U64]), ["b", "+", a, num(0)]], ["n", I64, i2w(0)]]]
            s = dict(op="try", o=0, _ctx="addr", e=["=", ["*", a], num(r.randint(1, 100))], _t=t)
            st.append(s)
            st.append(dict(op="dump", v=r.choice([arr]), id=1)); st.append(dict(op="dump", v=sv, id=2))
            continue
        st.append(s)
    p.finish([], dict(op="block", ch=st))
    return p
