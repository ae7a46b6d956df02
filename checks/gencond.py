"""Random conditional-inclusion worlds and define/undef histories for C09."""
from pp import *

def fnv(s):
    h = 0xcbf29ce484222325
    for c in s.encode():
        h = (h * 0x100000001b3) & (2**64 - 1); h ^= c
    return h
_coll = {}
def colliding(rng, n, bits=12, group=None):
    """names whose FNV hashes agree modulo 2**bits (the table's probe chains then meet)"""
    if bits not in _coll:
        d = {}
        r = random.Random(bits)
        for i in range(120000):
            nm = "Q" + "".join(r.choice("abcdefghijklmnopqrstuvwxyz_0123456789") for _ in range(r.choice([2, 3, 4, 6])))
            d.setdefault(fnv(nm) % (1 << bits), set()).add(nm)
        _coll[bits] = [sorted(v) for k, v in sorted(d.items()) if len(v) >= 12]
    g = rng.choice(_coll[bits])
    return rng.sample(g, n)

NAMES = ["A", "B", "C", "D1", "foo", "x_1"]
def expr(rng, d=0, df=True):
    """df: may hold `defined` (not inside the arguments of a macro, where compilers differ)"""
    if not df:
        x = rng.random()
        while .4 <= x < .55: x = rng.random()
    else: x = rng.random()
    if d > 3 or x < .25: return rng.choice(["0", "1", "2", "7", "0x10", "1u", "3L", "0", "1", "100000000000", "0xffffffffffffffff", "017"])
    if x < .4: return rng.choice(NAMES + ["undefined_name", "int"])
    if x < .55: return rng.choice(["defined %s", "defined(%s)", "defined ( %s )", "! defined %s"]) % rng.choice(NAMES)
    if x < .63: return rng.choice("-!~+") + " " + expr(rng, d + 1, df)
    if x < .72: return "(" + expr(rng, d + 1, df) + ")"
    if x < .77: return "(%s) ? (%s) : %s" % (expr(rng, d+1, df), expr(rng, d+1, df), expr(rng, d+1, df))
    if x < .81: return "FN(%s, %s)" % (expr(rng, d+2, False), expr(rng, d+2, False))
    op = rng.choice(["+", "-", "*", "/", "%", "&", "|", "^", "&&", "||", "==", "!=", "<", ">", "<=", ">=", "<<", ">>"])
    a, b = expr(rng, d+1, df), expr(rng, d+1, df)
    return "%s %s %s" % (a, op, b)
def define_line(rng, names=NAMES):
    n = rng.choice(names); x = rng.random()
    if x < .35: return "#undef " + n
    return "#define %s %s" % (n, rng.choice(["", "0", "1", "2", "B", "A", "C + 1", "(D1)", "foo", "0x7fffffff", "-1"]))
JUNK = ["# unknown directive", "#include <nonexistent.h>", "#error no", "#define", "#undef", "FN(", "' ' \"s\" 1.2.3 @ `", "#pragma foo", "#line x", "#include_next \"q\"", "# 33 nope", "#define 1 2", "FN(1"]

def cond_block(rng, d, skipping):
    """lines of one balanced conditional"""
    out = []
    k = rng.random()
    if k < .5: out.append("#if " + expr(rng))
    elif k < .75: out.append("#ifdef " + rng.choice(NAMES))
    else: out.append("#ifndef " + rng.choice(NAMES))
    if rng.random() < .1: out[0] = "# " + out[0][1:]
    out += lines(rng, d + 1)
    for _ in range(rng.choice([0, 0, 0, 1, 1, 2, 3])):
        out.append("#elif " + expr(rng)); out += lines(rng, d + 1)
    if rng.random() < .6:
        out.append("#else" + rng.choice(["", "", " extra", " // c"])); out += lines(rng, d + 1)
    out.append("#endif" + rng.choice(["", "", " FOO_H", " /* c */"]))
    return out
_id = [0]
def text(rng):
    _id[0] += 1
    return rng.choice(["t%d %s ;"] * 6 + ["(t%d) %s", "once t%d %s", "( x ) t%d %s", "\"s\" t%d %s", "defined t%d %s", "FN t%d %s"]) % (_id[0], rng.choice(NAMES + ["FN(1, 2)", "x", ""]))
def lines(rng, d):
    out = []
    for _ in range(rng.choice([0, 1, 1, 2, 3]) if d else rng.randint(4, 9)):
        x = rng.random()
        if x < .3 and d < 4: out += cond_block(rng, d, False)
        elif x < .5: out.append(define_line(rng))
        elif x < .55: out.append(rng.choice(["#", "", "#pragma ignored 1", "# ", "#pragma"]))
        else: out.append(text(rng))
    return out
def zero_block(rng):
    """a group that is never processed, full of junk"""
    b = [rng.choice(JUNK) if rng.random() < .6 else text(rng) for _ in range(rng.randint(1, 5))]
    if rng.random() < .5:
        b.insert(rng.randint(0, len(b)), "\n".join(["#if %s" % rng.choice(["1", "garbage ( (", "1 / 0", "defined", ""]), rng.choice(JUNK), "#else", "in", "#elif 1" if rng.random() < .2 else "#undef A", "#endif"]))
    b = "\n".join(b).split("\n")
    x = rng.random()
    if x < .4: return ["#if 0"] + b + ["#endif"]
    if x < .6: return ["#if 1", text(rng), "#else"] + b + ["#endif"]
    if x < .8: return ["#if 1", text(rng), "#elif " + rng.choice(["1", "1 / 0", "garbage (", "1"])] + b + ["#else"] + b + ["#endif"]
    return ["#ifdef NEVER"] + b + ["#elif 0"] + b + ["#else", text(rng), "#endif"]

def cond_world(rng):
    w = World(); w.rng = random.Random(rng.random())
    L = ["#define FN(a, b) ((a) - (b))"] if rng.random() < .8 else ["#define FN(a, b) (a) + b"]
    for _ in range(rng.choice([0, 1, 2, 3, 4])):
        n = rng.choice(NAMES)
        if rng.random() < .65:
            v = rng.choice([None, "", "0", "1", "5", "B", "A + 1"])
            w.cmd.append(["D", n, T("1") if v is None else T(v)])
            a = n if v is None else n + "=" + v
            w.args += rng.choice([["-D" + a], ["-D", a]])
        else:
            w.cmd.append(["U", n, []]); w.args += rng.choice([["-U" + n], ["-U", n]])
    for _ in range(rng.randint(1, 3)):
        L += lines(rng, 0)
        if rng.random() < .5: L += zero_block(rng)
    L.append("fin")
    w.file("main.c", [T(x) if x else [] for x in L])
    return w

def history_world(rng, nops=160, nnames=6, bits=None):
    w = World()
    bits = bits or rng.choice([9, 10, 11, 12])
    names = colliding(rng, nnames, bits)
    L, v = [], 0
    for _ in range(nops):
        n = rng.choice(names); x = rng.random(); v += 1
        if x < .4: L.append("#define %s v%d" % (n, v))
        elif x < .7: L.append("#undef " + n)
        elif x < .85: L += ["#ifdef " + n, "yes " + n, "#else", "no " + n, "#endif"]
        else: L.append(" ".join(names) + " ;")
    L.append("fin")
    w.file("main.c", [T(x) for x in L])
    return w
def all_histories(rng, hists):
    """histories enumerated by HashMap.tla, run one after another on colliding names"""
    w = World()
    names = colliding(rng, 3, rng.choice([10, 11, 12]))
    L, v = [], 0
    for h in hists:
        for op in h:
            v += 1
            L.append("#define %s v%d" % (names[op-1], v) if op > 0 else "#undef " + names[-op-1])
        L.append(" ".join(names) + " ;")
        if rng.random() < .3: names = colliding(rng, 3, rng.choice([10, 11, 12]))
    w.file("main.c", [T(x) for x in L])
    return w
def growth_world(rng, n=700):
    """many names: the table grows, tombstones are dropped"""
    w = World()
    names = ["G%x" % i for i in range(n)]
    rng.shuffle(names)
    L, live = [], []
    for i, nm in enumerate(names):
        L.append("#define %s r%d" % (nm, i)); live.append(nm)
        if rng.random() < .45: L.append("#undef " + live.pop(rng.randrange(len(live))))
        if rng.random() < .1: L.append("#define %s s%d" % (rng.choice(names), i))
        if i % 97 == 96: L.append(" ".join(rng.sample(names, 60)) + " ;")
    for i in range(0, len(names), 60): L.append(" ".join(names[i:i+60]) + " ;")
    w.file("main.c", [T(x) for x in L])
    return w

BADLINES = ["#else", "#elif 1", "#endif", "#if 1", "#ifdef A", "#ifndef A", "#error stop here", "#wrong x", "# nonsense", "#if", "#if (1", "#if 1 +", "#if 1 / 0", "#if 1 2", "#if 3 % (A - A)", "#elif",
            "FN(1)", "FN(1, 2, 3)", "FN()", "t FN(x, FN(1))", "#include \"nope.h\"", "#include <nope.h>", "#include nope", "#define 1 x", "#define", "#undef 1", "#define F( x", "#define F(x, ) y", "#define F(x y) z",
            "PASTE(+, /) x", "PASTE(A, \"s\") y", "PASTE(/, /)", "#ifdef", "#ifdef 1", "#ifndef", "#line x", "#if 1.5", "#if \"s\"", "#if A = 1", "#if FN(1)", "#if defined", "#if defined(A", "#if (1 ? 2)", "FN(FN(1, 2, 3), 2)"]
def bad_world(rng):
    """a world with one or two wrong lines, somewhere in it, in a selected group or not"""
    w = World(); w.rng = random.Random(rng.random()); w.splice = rng.random() < .4
    def part(n, hdr):
        L = lines(rng, rng.choice([0, 1])) if rng.random() < .8 else []
        if rng.random() < .3: L += zero_block(rng)
        for _ in range(n): L.insert(rng.randint(0, len(L)), rng.choice(BADLINES))
        for _ in range(rng.randint(0, 3)):
            L.insert(rng.randint(0, len(L)), rng.choice(["/* a\n comment */ ", "// x", "", "#line %d" % rng.randint(1, 999), "#line %d \"%s\"" % (rng.randint(1, 999), rng.choice(["foo.c", "bar.h"])), "/*\n\n*/"]))
        return [x if x[:1] == "/" else T(x) if x else [] for x in L]
    M = [T("#define FN(a, b) ((a) - (b))"), T("#define PASTE(a, b) a ## b")]
    k = rng.choice([0, 1])
    main = part(1 - k if rng.random() < .9 else 1, False)
    if k or rng.random() < .3:
        hl = part(k, True)
        main.insert(rng.randint(0, len(main)), T("#include") + [w.header('"h.h"')])
        w.file("main.c", M + main); w.file("h.h", hl or [[]])
    else: w.file("main.c", M + main)
    return w
