"""C19: unparenthesised expressions and declarations as token sequences (CGrammar/CText.tla) and their replay."""
from cprog import *
import re

# ---------------------------------------------------------------- type names
SPEC = {"_Bool": ["_Bool"], "signed char": ["char", "signed"], "char": ["char"], "unsigned char": ["unsigned", "char"], "short": ["short"], "short2": ["short", "int"],
        "short3": ["signed", "short", "int"], "unsigned short": ["unsigned", "short"], "us2": ["unsigned", "short", "int"], "int": ["int"], "signed": ["signed"], "si": ["signed", "int"],
        "unsigned": ["unsigned"], "ui": ["unsigned", "int"], "long": ["long"], "li": ["long", "int"], "sl": ["signed", "long"], "sli": ["signed", "long", "int"],
        "ul": ["unsigned", "long"], "uli": ["unsigned", "long", "int"], "ll": ["long", "long"], "lli": ["long", "long", "int"], "sll": ["signed", "long", "long", "int"],
        "ull": ["unsigned", "long", "long"], "ulli": ["unsigned", "long", "long", "int"], "float": ["float"], "double": ["double"], "ld": ["long", "double"]}
INTK = [k for k in SPEC if k not in ("float", "double", "ld")]
def spec(rng, keys=None, stor=(), tds=(), voidok=False, typeof=None):
    """declaration specifiers in any order, with qualifiers and storage words anywhere"""
    r = rng.random()
    if voidok and r < .1: ws = [["void"]]
    elif tds and r < .35: ws = [[rng.choice(tds)]]
    elif typeof and r < .5: ws = [["typeof", "("] + typeof() + [")"]]
    elif r < .53 and not keys: ws = [["struct", "S1"]] if rng.random() < .5 else [["struct", "S2"]]
    else: ws = [[w] for w in SPEC[rng.choice(keys or list(SPEC))]]
    ws += [[w] for w in stor]
    while rng.random() < .25: ws.append([rng.choice(["const", "volatile"])])
    rng.shuffle(ws)
    return [t for w in ws for t in w]

# --------------------------------------------------------------- expressions
VT = [I8, U8, I16, U16, I32, I32, U32, U32, I64, U64]
NUMS = {}
for v in list(range(0, 20)) + [31, 32, 63, 64, 100, 127, 128, 255, 256, 1000, 65535, 65536]:
    NUMS[str(v)] = [I32, i2w(v)]
for v in (0, 1, 2, 3, 7, 5, 9, 255):
    NUMS["%du" % v] = [U32, i2w(v)]; NUMS["%dl" % v] = [I64, i2w(v)]; NUMS["%dul" % v] = [U64, i2w(v)]
LEV = {"*": 10, "/": 10, "%": 10, "+": 9, "-": 9, "<<": 8, ">>": 8, "<": 7, ">": 7, "<=": 7, ">=": 7, "==": 6, "!=": 6, "&": 5, "^": 4, "|": 3, "&&": 2, "||": 1}
class EGen:
    def __init__(self, rng, ints, arrs, ptrs, structs, sptrs, fns):
        self.r, self.ints, self.arrs, self.ptrs, self.structs, self.sptrs, self.fns = rng, ints, arrs, ptrs, structs, sptrs, fns
    def paren(self, ts, p=.18):
        return ["("] + ts + [")"] if self.r.random() < p else ts
    def num(self): return [self.r.choice(["1", "2", "3", "5", "7", "2", "3"]) if self.r.random() < .5 else self.r.choice(list(NUMS))]
    def lv(self, d):
        r = self.r; k = r.random()
        if k < .5 or d <= 0: return [r.choice(self.ints)]
        if k < .62: return [r.choice(self.arrs), "["] + (self.e(d-2) + [","] if r.random() < .1 else []) + self.e(d-2 if r.random() < .3 else 0, idx=True) + ["]"]
        if k < .72: return self.deref(d)
        if k < .84: return [r.choice(self.structs), ".", r.choice(["m1", "m2", "m3"])]
        if k < .94: return [r.choice(self.sptrs), "->", r.choice(["m1", "m2", "m3"])]
        if k < .97: return [r.choice(["0", "1"]), "[", r.choice(self.arrs), "]"]
        return ["*", "&"] + self.lv(d-1)
    def deref(self, d):
        r = self.r; p = r.choice(self.ptrs); k = r.random()
        if k < .25: return ["*", p]
        if k < .4: return ["*", p, r.choice(["++", "--"])]
        if k < .5: return ["*", r.choice(["++", "--"]), p]
        if k < .6: return ["(", "*", p, ")"]
        if k < .75: return ["*", "(", p, r.choice(["+", "-"]), r.choice(["0", "1"]), ")"]
        if k < .85: return [p, "[", r.choice(["0", "1"]), "]"]
        return ["*", r.choice(self.arrs)]
    def tname(self): return spec(self.r, [k for k in INTK])
    def e(self, d, idx=False):
        r = self.r
        if idx: return [r.choice(["0", "1", "2"])] if d <= 0 else ["1", "&"] + self.e(d)
        if d <= 0: return self.num() if r.random() < .35 else self.lv(1)
        k = r.random()
        if k < .58:
            op = r.choice(list(LEV))
            a, b = self.paren(self.e(d-1)), self.paren(self.e(d-1))
            if op in ("<<", ">>") and r.random() < .8: b = [r.choice(["1", "2", "3", "7"])] if r.random() < .6 else ["("] + b + ["&", "7", ")"]
            if op in ("/", "%") and r.random() < .7: b = ["("] + b + ["|", "1", ")"]
            return a + [op] + b
        if k < .66: return [r.choice("-~!+")] + self.paren(self.e(d-1), .3)
        if k < .72: return ["("] + self.tname() + [")"] + self.paren(self.e(d-1), .3)
        if k < .79:
            q = r.random()
            mid = [] if q < .12 else self.e(d-1) + [","] + self.e(d-2) if q < .25 else self.paren(self.e(d-1))
            return self.paren(self.e(d-1), .15) + ["?"] + mid + [":"] + self.paren(self.e(d-1))
        if k < .82: return self.paren(self.e(d-1) + [","] + self.e(d-1), .9)
        if k < .86: return self.lv(1) + [r.choice(["++", "--"])] if r.random() < .5 else [r.choice(["++", "--"])] + self.lv(1)
        if k < .90:
            x = self.lv(1) + [r.choice(["=", "+=", "-=", "*=", "&=", "|=", "^=", "<<=", ">>=", "/=", "%="])] + self.e(d-1)
            return self.paren(x, .9)
        if k < .93:
            q = r.random()
            if q < .3: return ["sizeof", "("] + self.tname() + [")"]
            if q < .4: return ["_Alignof", "("] + self.tname() + [")"]
            return ["sizeof"] + self.paren(self.e(d-1), .3)
        if k < .96: return [self.r.choice(self.fns), "("] + self.e(d-1) + [","] + self.e(d-1) + [")"]
        if k < .98:
            ks = r.sample(["int", "unsigned", "long", "ul", "short", "unsigned char", "signed char", "unsigned short", "_Bool"], r.randint(1, 4))
            asc = []
            for x in ks: asc.append(spec(r, [x]) + [":"] + self.e(d-2))
            if r.random() < .8: asc.insert(r.randint(0, len(asc)), ["default", ":"] + self.e(d-2))
            return ["_Generic", "("] + self.e(d-1) + [t for a in asc for t in [","] + a] + [")"]
        return ["__builtin_types_compatible_p", "("] + self.tname() + [","] + self.tname() + [")"]
    def stmt(self):
        r = self.r; d = r.randint(1, 4); k = r.random()
        if k < .3: return self.lv(2) + [r.choice(["=", "=", "+=", "-=", "*=", "|=", "^=", "&=", "<<=", ">>="])] + self.e(d)
        if k < .36: return self.lv(1) + ["="] + self.lv(1) + [r.choice(["=", "+=", "^="])] + self.e(d-1)
        if k < .42: return self.e(d-1) + [","] + self.e(d-1)
        return self.e(d)

def expr_prog(rng, k, n=14):
    """one CText program of expression statements"""
    nm = iter(["a", "b", "c", "d", "e", "f", "g", "h", "x", "y", "z", "w"])
    vs, names, sets = [], [], []
    def var(t, o=0, off=0, nme=None):
        vs.append(dict(t=t, o=o, off=off)); names.append(nme or next(nm)); return len(vs)
    def val(t):
        v = rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 9, 11, 13, 100, 255, -1, -2, -7])
        return i2w(v)[:t[1]]
    ints = []
    for _ in range(6):
        t = rng.choice(VT); i = var(t); sets.append([i, val(t)]); ints.append(names[i-1])
    at = rng.choice(VT)
    ar = var(["a", at, 4], nme="arr"); sets.append([ar, [b for _ in range(4) for b in val(at)]])
    mem = [rng.choice(VT) for _ in range(3)]
    bf = rng.randint(0, 3)
    tags = [dict(un=0, pk=0, al=0, mem=[dict(t=(I32 if j + 1 == bf else t), bf=(rng.randint(3, 9) if j + 1 == bf else -1), al=0, nm=1) for j, t in enumerate(mem)])]
    s = var(["s", 1], nme="st"); p = var(["p", at], ar, at[1] * rng.randint(0, 2), nme="p"); q = var(["p", at], ar, at[1] * rng.randint(1, 3), nme="q")
    ps = var(["p", ["s", 1]], s, 0, nme="ps")
    sets.append([s, []])
    nv = len(vs)
    par = []
    for t in (U32, U32): vs.append(dict(t=t, o=0, off=0)); par.append(len(vs))
    funcs = [dict(par=par, loc=[], ret=U32, body=["b", "-", ["b", "*", ["v", par[0]], num(3)], ["v", par[1]]])]
    # the struct's bytes: values of every member, so that nothing is indeterminate
    eg = EGen(rng, ints, ["arr"], ["p", "q"], ["st"], ["ps"], ["fn%d" % k])
    txt = [eg.stmt() for _ in range(n)]
    return dict(tags=tags, vars=vs, nv=nv, vn=names[:nv], sets=sets, funcs=funcs, decls=[], txt=txt, t=[], names=[], s=[["S1", ["s", 1]]],
                c=[[a, b] for a, b in NUMS.items()], f=[["fn%d" % k, 1]], m=[["m%d" % i, i] for i in (1, 2, 3)], _s=s)

def cstr(b): return '"%s"' % "".join("\\%03o" % x for x in b)
def expr_text(p, k, out, mem):
    """C text and expected lines"""
    m = p["tags"][0]["mem"]
    st = "struct S1 { %s };" % " ".join("%s;" % tname(x["t"], "m%d%s" % (j + 1, " : %d" % x["bf"] if x["bf"] >= 0 else "")) for j, x in enumerate(m))
    o = ["static unsigned fn%d(unsigned a, unsigned b) { return a * 3 - b; }" % k, "static void main%d(void)\n{\n\t%s" % (k, st)]
    want = []
    for i, v in enumerate(p["vars"][:p["nv"]]):
        n, t = p["vn"][i], v["t"]
        d = "struct S1 *ps" if n == "ps" else "struct S1 st" if n == "st" else tname(t, n)
        if v["o"]:
            o.append("\t%s = %s;" % (d, "&st" if n == "ps" else "&arr[%d]" % (v["off"] // t[1][1])))
        else: o.append("\t%s;" % d)
    for i, b in p["sets"]: o.append("\tvp_zero(&%s, sizeof(%s));" % (p["vn"][i-1], p["vn"][i-1]) if not b else "\tvp_set(&%s, %s, %d);" % (p["vn"][i-1], cstr(b), len(b)))
    for ts, r in zip(p["txt"], out):
        s = " ".join(ts)
        if r[0] == "no": continue
        if r[0] == "i": o.append("\tOUT((%s));" % s); want.append("i %d %x" % (r[1], w2i(r[2], False)))
        elif r[0] == "f": continue
        else: o.append("\t%s;" % s)
    for i, v in enumerate(p["vars"][:p["nv"]]):
        if v["o"]: continue
        o.append("\tvp_b(%d, &%s, sizeof(%s));" % (i, p["vn"][i], p["vn"][i]))
        want.append("b %d %s" % (i, "".join("%02x" % x if x >= 0 else "??" for x in mem[i])))
    # where the pointers ended up
    for i, v in enumerate(p["vars"][:p["nv"]]):
        if v["o"] and p["vn"][i] != "ps":
            off = sum(b << 8 * j for j, b in enumerate(mem[i][:4]))
            o.append("\tOUT(%s - arr);" % p["vn"][i]); want.append("i 17 %x" % (off // v["t"][1][1]))
    o.append("}")
    return "\n".join(o), want

def run(ck, label, progs, text):
    res = ck.tlc("CText", batch=progs, name="CText/" + label)
    items, n, bad, seen = [], 0, {}, set()
    for r in res:
        k, out, mem = json.loads(r)
        if k in seen: continue
        seen.add(k)
        for x in out:
            if x[0] == "no": bad[x[1] if len(x) > 1 else "declaration"] = bad.get(x[1] if len(x) > 1 else "declaration", 0) + 1
            else: n += 1
        t, want = text(progs[k-1], k, out, mem)
        items.append((str(k), k, t, "main%d" % k, want))
    if len(seen) != len(progs): raise Broken("model gave %d results for %d programs" % (len(seen), len(progs)))
    items.sort(key=lambda x: x[1])
    ck.extra.setdefault("programs", {})[label] = dict(programs=len(progs), judged=n, left_out=bad)
    it = items[len(items)//2]
    ck.sample(dict(program=it[2][:1500], expected=it[4][:12]))
    return run_texts(ck, label, items)

# -------------------------------------------------------------- declarations
class DGen:
    def __init__(self, rng, k):
        self.r, self.k, self.n, self.objs, self.tds, self.used = rng, k, 0, [], [], []
    def name(self):
        self.n += 1; s = "n%d_%d" % (self.k, self.n); self.used.append(s); return s
    def dim(self):
        r = self.r; k = r.random()
        if k < .6: return [r.choice(["1", "2", "3", "5", "7"])]
        if k < .8: return ["1", r.choice(["+", "<<", "|"]), "2"]
        return ["sizeof", "("] + spec(r) + [")"]
    def dcl(self, d, nm, abstract=False, param=False):
        """a declarator around nm (a list of tokens)"""
        r = self.r
        ts = list(nm)
        while d > 0:
            k = r.random()
            if k < .4:
                q = [r.choice(["const", "volatile", "restrict"])] if r.random() < .15 else []
                ts = ["*"] + q + ts
                if r.random() < .6 and d > 1: ts = ["("] + ts + [")"]
            elif k < .7: ts = ts + ["["] + (self.dim() if r.random() < .93 or ts != list(nm) else []) + ["]"]
            elif k < .9: ts = ts + ["("] + self.params() + [")"]
            elif ts: ts = ["("] + ts + [")"]
            d -= 1
        return ts
    def params(self):
        r = self.r; n = r.choice([0, 0, 1, 1, 2, 3])
        if n == 0: return ["void"] if r.random() < .6 else []
        out = []
        for i in range(n):
            nm = [] if r.random() < .5 else ["q%d" % r.randint(1, 9)]
            out += ([","] if i else []) + spec(r, tds=self.tds) + self.dcl(r.choice([0, 0, 1, 1, 2, 3]), nm, param=True)
        if r.random() < .2: out += [",", "..."]
        return out
    def tyof(self):
        r = self.r
        if not self.objs or r.random() < .3: return spec(r, tds=self.tds) + self.dcl(r.choice([0, 1, 2]), [], abstract=True)
        o = r.choice(self.objs); k = r.random()
        if k < .5: return [o]
        if k < .6: return ["&", o]
        if k < .7: return [o, "[", "0", "]"]
        if k < .8: return ["*", o]
        if k < .9: return [o, "+", r.choice(["1", "1u", "1l"])]
        return ["-", o]
    def decl(self, ctx):
        r = self.r
        stor = {"typedef": ["typedef"], "extern": ["extern"], "global": r.choice([[], ["static"]])}.get(ctx, [])
        ts = spec(r, stor=stor, tds=self.tds, voidok=True, typeof=self.tyof if r.random() < .5 else None)
        ns = []
        for i in range(1 if ctx == "param" else r.choice([1, 1, 2, 3])):
            n = self.name(); ns.append(n)
            ts += ([","] if i else []) + self.dcl(r.choice([0, 1, 1, 2, 2, 3, 4, 5]), [n])
        if ctx == "typedef": self.tds += ns
        elif ctx in ("global", "extern"): self.objs += ns
        return dict(ts=ts, ctx=ctx)
    def tn(self, d=None):
        return spec(self.r, tds=self.tds, typeof=self.tyof) + self.dcl(self.r.choice([0, 1, 2, 3]) if d is None else d, [], abstract=True)
    def txt(self):
        r = self.r; k = r.random()
        if k < .3: return ["sizeof", "("] + self.tn() + [")"]
        if k < .6: return ["__builtin_types_compatible_p", "("] + self.tn() + [","] + self.tn() + [")"]
        if k < .7 and self.objs: return ["sizeof"] + self.tyof()
        if not self.objs: return ["1"]
        o = r.choice(self.objs)
        asc = [self.tn() + [":", str(i + 1)] for i in range(r.randint(1, 4))]
        if r.random() < .5: asc.append(["typeof", "(", o, ")", ":", "9"])
        if r.random() < .8: asc.insert(r.randint(0, len(asc)), ["default", ":", "0"])
        return ["_Generic", "(", o] + [t for a in asc for t in [","] + a] + [")"]

def decl_prog(rng, k):
    g = DGen(rng, k)
    decls = [g.decl(rng.choice(["global", "global", "global", "typedef", "typedef", "extern", "param", "member"])) for _ in range(9)]
    txt = [g.txt() for _ in range(8)]
    tags = [dict(un=0, pk=0, al=0, mem=[dict(t=I8, bf=-1, al=0, nm=1), dict(t=I32, bf=-1, al=0, nm=1)]), dict(un=0, pk=0, al=0, mem=[dict(t=I64, bf=-1, al=0, nm=1)])]
    return dict(tags=tags, vars=[], nv=0, vn=[], sets=[], funcs=[], decls=decls, txt=txt, t=[], names=g.used + ["q%d" % i for i in range(10)], s=[["S1", ["s", 1]], ["S2", ["s", 2]]],
                c=[[a, b] for a, b in NUMS.items()], f=[], m=[], block=rng.random() < .5)

def decl_text(p, k, out, mem):
    pre, body, want, ch = [], [], [], {}
    top = body if p["block"] else pre
    struct = "struct S1 { signed char m1; int m2; }; struct S2 { long m1; };"
    body0 = []
    (body if p["block"] else pre).append(struct if p["block"] else struct.replace("S1", "S1_%d" % k).replace("S2", "S2_%d" % k))
    def sp(ts): return " ".join(ts) if p["block"] else " ".join(t + "_%d" % k if t in ("S1", "S2") else t for t in ts)
    def chain(t):
        """a typedef for t that uses only one derivation per declaration"""
        key = json.dumps(t)
        if key in ch: return ch[key]
        kd = t[0]
        c = "C%d_%d" % (k, len(ch) + 1000)
        if kd == "p": d = "%s *%s" % (chain(t[1]), c)
        elif kd == "a": d = "%s %s[%s]" % (chain(t[1]), c, t[2] if t[2] > 0 else "")
        elif kd == "fn":
            b = chain(t[1]); ps = [chain(x) for x in t[2]]
            d = "%s %s(%s)" % (b, c, ", ".join(ps + (["..."] if t[3] else [])) or "void")
        elif kd == "s": d = "struct S%d%s %s" % (t[1], "" if p["block"] else "_%d" % k, c)
        else: d = "%s %s" % (NAME[json.dumps(t)], c)
        c = "C%d_%d" % (k, len(ch))
        ch[key] = c
        top.append("typedef %s;" % re.sub(r"C%d_1\d\d\d\b" % k, c, d))
        return c
    types = []
    nout = len(p["decls"])
    for j, (d, r) in enumerate(zip(p["decls"], out[:nout])):
        if r[0] == "no": continue
        s = sp(d["ts"])
        if d["ctx"] in ("global", "extern", "typedef"): top.append(s + ";")
        elif d["ctx"] == "member": top.append("static struct { %s; } w%d_%d;" % (s, k, j))
        chk = []
        for nm, t, size, cmp in r[1]:
            c = chain(t)
            td = d["ctx"] == "typedef"
            e = nm if td else "typeof(%s)" % ("w%d_%d.%s" % (k, j, nm) if d["ctx"] == "member" else nm)
            chk.append("vp_i(9, __builtin_types_compatible_p(%s, %s));" % (e, c)); want.append("i 9 1")
            if size:
                chk.append("OUT(sizeof(%s));" % (nm if td else e)); want.append("i 16 %x" % size)
            for t2, v in list(zip(types, cmp))[-6:]:
                chk.append("vp_i(9, __builtin_types_compatible_p(%s, %s));" % (e, chain(t2))); want.append("i 9 %d" % v)
        if d["ctx"] == "param":
            if p["block"]:            # no nested functions: a pointer to such a function
                want = want[:-len(chk)] if chk else want
            else:
                pre.append("static void p%d_%d(%s)\n{\n\t%s\n}" % (k, j, s, "\n\t".join(chk)))
                body.append("((void (*)(void))p%d_%d)();" % (k, j))
        else: body += chk
        types += [x[1] for x in r[1]]
    for ts, r in zip(p["txt"], out[nout:]):
        if r[0] != "i": continue
        body.append("OUT((%s));" % sp(ts)); want.append("i %d %x" % (r[1], w2i(r[2], False)))
    return "%s\nstatic void main%d(void)\n{\n\t%s\n}" % ("\n".join(pre), k, "\n\t".join(body)), want
