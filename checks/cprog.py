"""C programs as data (the format CExpr/CMachine.tla reads), their rendering
as C text, and the replay of model behaviours on the real compiler."""
import json, math, os, struct
from lib import *

def I(sz, sg, rk): return ["i", sz, sg, rk]
BOOL, I8, U8, I16, U16, I32, U32, I64, U64 = (I(1,0,0), I(1,1,1), I(1,0,1), I(2,1,2), I(2,0,2), I(4,1,3), I(4,0,3), I(8,1,4), I(8,0,4))
LL, ULL = I(8,1,5), I(8,0,5)
F32, F64, F128 = ["f",4], ["f",8], ["f",16]
INTS = [BOOL, I8, U8, I16, U16, I32, U32, I64, U64]
ALLINTS = INTS + [LL, ULL]
VOID = ["v"]
NAME = {json.dumps(k): v for k, v in [(BOOL,"_Bool"),(I8,"signed char"),(U8,"unsigned char"),(I16,"short"),(U16,"unsigned short"),
        (I32,"int"),(U32,"unsigned int"),(I64,"long"),(U64,"unsigned long"),(LL,"long long"),(ULL,"unsigned long long"),
        (F32,"float"),(F64,"double"),(F128,"long double"),(VOID,"void")]}

def tname(t, inner="", tag="S"):
    """C declarator for type t around `inner`."""
    if t[0] == "p":
        b = t[1]
        if b[0] == "a":
            return tname(b, "(*%s)" % inner, tag)
        return tname(b, "*" + inner, tag)
    if t[0] == "a":
        return tname(t[1], "%s[%d]" % (inner, t[2]), tag)
    if t[0] == "s":
        return ("%s%d %s" % (tag, t[1], inner)).strip()
    return (NAME[json.dumps(t)] + " " + inner).strip()

def irange(t):
    if t[3] == 0: return 0, 1
    b = 8 * t[1]
    return (-(1 << b-1), (1 << b-1) - 1) if t[2] else (0, (1 << b) - 1)

def num(v, t=I32):
    """expression for the integer constant v, as C would type it"""
    assert t in (I32, U32, I64, U64, LL, ULL)
    lo, hi = irange(t)
    if v < 0:
        if v == lo:
            return ["b", "-", ["u", "-", ["n", t, i2w(hi)]], ["n", I32, i2w(1)]]
        return ["u", "-", ["n", t, i2w(-v)]]
    assert v <= hi
    return ["n", t, i2w(v)]

def fbytes(v, sz):
    if sz == 4: return list(struct.pack("<f", v))
    if sz == 8: return list(struct.pack("<d", v))
    # binary128 from a double
    import math
    sg = 1 if math.copysign(1, v) < 0 else 0
    if v == 0: q = sg << 127
    else:
        m, e = math.frexp(abs(v))                 # m in [0.5, 1)
        q = sg << 127 | (e - 1 + 16383) << 112 | (int(m * 2**53) - 2**52) << 60
    return list(q.to_bytes(16, "little"))
def fnum(v, t):
    assert v >= 0
    return ["n", t, fbytes(v, t[1])]

class Prog:
    """kw: tags, vars (dict t,g,init,name), funcs, main body"""
    def __init__(self):
        self.tags, self.vars, self.funcs, self.stmts = [], [], [], []
        self.key = None
        self.consts = False
    def tag(self, mem, un=0, pk=0, al=0):
        """mem: list of (type, bf, align, named)"""
        self.tags.append(dict(un=un, pk=pk, al=al, mem=[dict(t=t, bf=bf, al=a, nm=n) for t, bf, a, n in mem]))
        return ["s", len(self.tags)]
    def gvar(self, t, init=None):
        assert all(v["g"] for v in self.vars), "globals first"
        self.vars.append(dict(t=t, g=1, init=init or []))
        return len(self.vars)
    def lvar(self, t):
        self.vars.append(dict(t=t, g=0, init=[]))
        return len(self.vars)
    # statements are python dicts with nested children; flatten() numbers them
    def flatten(self, s, par):
        n = len(self.stmts) + 1
        nd = dict(op=s["op"], par=par)
        self.stmts.append(nd)
        s["_n"] = n
        for k, v in s.items():
            if k in ("op",) or k[0] == "_": continue
            if k == "ch": nd[k] = [self.flatten(c, n) for c in v]
            elif k in ("b", "t", "e") and isinstance(v, dict): nd[k] = self.flatten(v, n)
            elif k == "els": nd["e"] = self.flatten(v, n) if v else 0
            elif k == "to": nd[k] = v
            else: nd[k] = v
        return n
    def finish(self, main_loc, main_body):
        self.funcs.append(dict(name="main", kind="s", par=[], loc=main_loc, ret=I32, bodys=main_body))
        self.main = len(self.funcs)
        for f in self.funcs:
            if "bodys" in f:
                f["body"] = self.flatten(f["bodys"], 0)
        # resolve gotos: "to"/"tos" hold the target statement dicts
        for nd in self.stmts:
            if "to" in nd: nd["to"] = nd["to"]["_n"]
            if "tos" in nd: nd["tos"] = [x["_n"] for x in nd["tos"]]
    def model(self):
        fs = [{k: v for k, v in f.items() if k != "bodys"} for f in self.funcs]
        return dict(tags=self.tags, vars=self.vars, funcs=fs, stmts=self.stmts, main=self.main)

# ------------------------------------------------------------------ rendering
class Render:
    def __init__(self, pr, k, rng=None, omit=()):
        self.omit = set(omit)
        self.vals = {}
        self.nocast = False
        self.pr, self.k, self.tag = pr, k, "T%d_" % k
        self.rng = rng
    def ty(self, t, inner=""):
        return tname(t, inner, self.tag)
    def var(self, v):
        return ("g%d_%d" if self.pr.vars[v-1]["g"] else "v%d_%d") % (self.k, v)
    def lit(self, t, w):
        if t[0] == "f":
            sz = t[1]
            if sz == 4: v = struct.unpack("<f", bytes(w))[0]
            elif sz == 8: v = struct.unpack("<d", bytes(w))[0]
            else:
                q = int.from_bytes(bytes(w), "little")
                e, f = (q >> 112) & 0x7fff, q & ((1 << 112) - 1)
                v = 0.0 if q == 0 else math.ldexp(1 + f / 2.0**112, e - 16383)
            if sz == 16 or (int.from_bytes(bytes(w), "little") * 2654435761 >> 7) % 3 == 0:
                s = v.hex()          # exact in every format
            else: s = repr(v)
            if "." not in s and "e" not in s and "x" not in s: s += ".0"
            return s + {4: "f", 8: "", 16: "L"}[sz]
        v = w2i(w, False)
        s = ("0x%x" % v) if (v * 2654435761 >> 5) % 3 == 0 and not (t == I32 and v > 2**31-1) and not (t[1] == 8 and t[2] == 1 and v >= 2**63) else str(v)
        return s + {"3": "", "4": "l", "5": "ll"}[str(t[3])] + ("" if t[2] else "u")
    def e(self, e):
        k = e[0]
        if k == "n": return self.lit(e[1], e[2])
        if k == "v": return self.var(e[1])
        if k == "u": return "(%s %s)" % (e[1], self.e(e[2]))
        if k == "b": return "(%s %s %s)" % (self.e(e[2]), e[1], self.e(e[3]))
        if k == "?": return "(%s ? %s : %s)" % (self.e(e[1]), self.e(e[2]), self.e(e[3]))
        if k == "c" and self.nocast: return self.e(e[2])
        if k == "c": return "((%s)%s)" % (self.ty(e[1]), self.e(e[2]))
        if k == "=": return "(%s = %s)" % (self.e(e[1]), self.e(e[2]))
        if k == "o=": return "(%s %s= %s)" % (self.e(e[2]), e[1], self.e(e[3]))
        if k == "pre": return "(%s%s%s)" % (e[1], e[1], self.e(e[2]))
        if k == "post": return "(%s%s%s)" % (self.e(e[2]), e[1], e[1])
        if k == "*": return "(*%s)" % self.e(e[1])
        if k == "&": return "(&%s)" % self.e(e[1])
        if k == "[]": return "%s[%s]" % (self.p(e[1]), self.e(e[2]))
        if k in (".", "->"):
            nm = e[3] if len(e) > 3 else "m%d" % e[2]      # an anonymous member has no name of its own
            if nm == "" and k == "->": return "(*%s)" % self.p(e[1])
            return self.p(e[1]) + k + nm if nm else self.p(e[1])
        if k == "alt": return "_Alignof(%s)" % self.ty(e[1])
        if k == "am": return "((unsigned long)&%s %% %s)" % (self.e(e[1]), e[2] if isinstance(e[2], int) else "_Alignof(%s)" % self.ty(e[2]))
        if k == "sz": return "sizeof(%s)" % self.e(e[1])
        if k == "szt": return "sizeof(%s)" % self.ty(e[1])
        if k == "se": return "({ %s; })" % "; ".join(self.e(x) for x in e[1])
        if k == "call": return "%s(%s)" % (self.fn(e[1]), ", ".join(self.e(a) for a in e[2]))
        raise ValueError(k)
    def p(self, e):
        s = self.e(e)
        return s if e[0] in ("v", "[]", ".", "->", "call") else "(%s)" % s if s[0] != "(" else s
    def fn(self, i):
        return "f%d_%s%d" % (self.k, self.pr.funcs[i-1].get("name", "f"), i)
    def tagbody(self, i):
        t = self.pr.tags[i-1]
        ms = []
        for n, m in enumerate(t["mem"], 1):
            al = "_Alignas(%d) " % m["al"] if m["al"] else ""
            nm = m.get("name") or "m%d" % n
            if m["bf"] >= 0:
                ms.append("%s%s : %d;" % (al, self.ty(m["t"], nm if m["nm"] else ""), m["bf"]))
            elif not m["nm"]: ms.append("%s%s;" % (al, self.tagbody(m["t"][1])))
            elif m.get("flex"): ms.append("%s%s;" % (al, self.ty(m["t"][1], nm + "[]")))
            else: ms.append("%s%s;" % (al, self.ty(m["t"], nm)))
        at = []
        if t["pk"]: at.append("packed")
        if t["al"]: at.append("aligned(%d)" % t["al"])
        kw = "union" if t["un"] else "struct"
        return "%s %s%s{ %s }" % (kw, "__attribute__((%s)) " % ",".join(at) if at else "", "" if t.get("anon") else "%s%d_ " % (self.tag, i), " ".join(ms))
    def tagdef(self, i):
        if self.pr.tags[i-1].get("anon"): return ""
        return "typedef %s %s%d;" % (self.tagbody(i), self.tag, i)
    def decls(self):
        out = [self.tagdef(i+1) for i in range(len(self.pr.tags))]
        for i, v in enumerate(self.pr.vars, 1):
            if v["g"]:
                out.append("static %s%s;" % ("_Alignas(%d) " % v["al"] if v.get("al") else "", self.ty(v["t"], self.var(i))))
        def scan(s):
            if s.get("_ctx") == "ginit" and s["_n"] not in self.omit:
                out.append("%s = %s;" % (self.ty(s["e"][1], "vp%d_%d" % (self.k, s["_n"])), self.e(s["e"][2])))
            for c in s.get("ch", []): scan(c)
        for f in self.pr.funcs:
            if "bodys" in f: scan(f["bodys"])
        return out
    def s(self, s, ind=1):
        op = s["op"]; t = "\t" * ind; n = s["_n"]
        lab = "L%d_%d: " % (self.k, n) if s.get("_r") else ""
        t += lab
        if n in self.omit: return t + ";"
        if s.get("_ctx"): return t + self.const(s)
        if op == "try":
            if not s["o"]: return "%s%s;" % (t, self.e(s["e"]))
            op = "out"
        if op == "expr": return "%s%s;" % (t, self.e(s["e"]))
        if op in ("out", "outp"):
            if s.get("cls") == "f": return "%sOUTF(%s);" % (t, self.e(s["e"]))
            if s.get("cls") == "p": return "%sOUTI(%s);" % (t, self.e(s["e"]))
            return "%sOUT(%s);" % (t, self.e(s["e"]))
        if op == "trace": return "%svp_t(%d);" % (t, s["id"])
        if op == "dump": return "%svp_b(%d, &%s, sizeof(%s));" % (t, s["id"], self.var(s["v"]), self.var(s["v"]))
        if op == "fill": return "%svp_pat(&%s, sizeof(%s), %d);" % (t, self.var(s["v"]), self.var(s["v"]), s["s"])
        if op == "zero": return "%svp_zero(&%s, sizeof(%s));" % (t, self.var(s["v"]), self.var(s["v"]))
        if op == "fillp": return "%svp_pat(%s, %d, %d);" % (t, self.e(s["e"]), s["n"], s["s"])
        if op == "dumpp": return "%svp_b(%d, %s, %d);" % (t, s["id"], self.e(s["e"]), s["n"])
        if op == "setb":
            return "%svp_set(&%s, \"%s\", sizeof(%s));" % (t, self.var(s["v"]), "".join("\\%03o" % b for b in s["b"]), self.var(s["v"]))
        if op == "decl":
            d = self.ty(self.pr.vars[s["v"]-1]["t"], self.var(s["v"]))
            return "%s%s%s;" % (t + (";" if lab else ""), d, " = " + self.e(s["e"]) if s["e"] else "")
        if op == "vla":
            nm = self.var(s["v"])
            if s["kind"] == "ptr": nm = "(*%s)" % nm
            return "%s%s%s;" % (t, "typedef " if s["kind"] == "typedef" else "", self.ty(s["t"], nm + "".join("[%s]" % self.e(d) for d in s["dims"])))
        if op == "vlad": return "%s%s %s;" % (t, self.var(s["of"]), self.var(s["v"]))
        if op == "alloca": return "%s%s = alloca(%s);" % (t, self.var(s["v"]), self.e(s["e"]))
        if op == "null": return t + ";"
        if op == "block" and s.get("_sexp"):
            a = s["ch"][-1]["e"]
            return "%s%s = ({\n%s\n%s; });" % (t, self.e(a[1]), "\n".join(self.s(c, ind+1) for c in s["ch"][:-1]), "\t" * (ind+1) + self.e(a[2]))
        if op == "block":
            return "%s{\n%s\n%s}" % (t, "\n".join(self.s(c, ind+1) for c in s["ch"]), "\t" * ind)
        if op == "label": return "%s%s" % (t if lab else t + "L%d_%d:" % (self.k, n), "\n" + self.s(s["b"], ind))
        if op == "case":
            r = self.e(s["lo"]) if s["lo"] == s["hi"] else "%s ... %s" % (self.e(s["lo"]), self.e(s["hi"]))
            return "%scase %s:\n%s" % (t, r, self.s(s["b"], ind))
        if op == "default": return "%sdefault:\n%s" % (t, self.s(s["b"], ind))
        if op == "if":
            r = "%sif (%s)\n%s" % (t, self.e(s["c"]), self.s(s["t"], ind+1))
            if s["els"] and s["t"]["op"] not in ("block", "trace", "expr"):   # no dangling else
                r = "%sif (%s) {\n%s\n%s}" % (t, self.e(s["c"]), self.s(s["t"], ind+1), "\t" * ind)
            if s["els"]: r += "\n%selse\n%s" % ("\t" * ind, self.s(s["els"], ind+1))
            return r
        if op == "while": return "%swhile (%s)\n%s" % (t, self.e(s["c"]), self.s(s["b"], ind+1))
        if op == "do": return "%sdo\n%s\n%swhile (%s);" % (t, self.s(s["b"], ind+1), "\t" * ind, self.e(s["c"]))
        if op == "for":
            init = self.e(s["i"]) if s["i"] else ""
            if s.get("fd"):
                init = "%s = %s" % (self.ty(self.pr.vars[s["fd"]-1]["t"], self.var(s["fd"])), self.e(s["i"][2]))
            return "%sfor (%s; %s; %s)\n%s" % (t, init, self.e(s["c"]) if s["c"] else "", self.e(s["n"]) if s["n"] else "", self.s(s["b"], ind+1))
        if op == "switch": return "%sswitch (%s)\n%s" % (t, self.e(s["e"]), self.s(s["b"], ind+1))
        if op == "goto": return "%sgoto L%d_%d;" % (t, self.k, s["to"]["_n"])
        if op == "cgoto":
            return "%s{ static void *tab[] = { %s }; goto *tab[%s]; }" % (t, ", ".join("&&L%d_%d" % (self.k, x["_n"]) for x in s["tos"]), self.e(s["e"]))
        if op in ("break", "continue"): return t + op + ";"
        if op == "return": return "%sreturn%s;" % (t, " " + self.e(s["e"]) if s["e"] else "")
        if op == "call":
            c = "%s(%s)" % (self.fn(s["f"]), ", ".join(self.e(a) for a in s["args"]))
            return "%s%s%s;" % (t, self.e(s["dst"]) + " = " if s["dst"] else "", c)
        raise ValueError(op)
    def const(self, s):
        """a constant expression in the position s["_ctx"] names; s["e"] is what the model evaluates"""
        c, e, n = s["_ctx"], s["e"], s["_n"]
        kind, a, w = self.vals[n]                 # the model's value
        v = "vp%d_%d" % (self.k, n)
        if kind == "f":
            t = e[1]
            return "{ static %s = %s; OUTF(%s); }" % (self.ty(t, v), self.e(e[2]), v)
        val = "0x%xul" % w2i(w, False)
        seen = "vp_i(%d, %s);" % (a, val)
        if c == "init": return "{ static %s = %s; OUT(%s); }" % (self.ty(e[1], v), self.e(e[2]), v)
        if c == "ginit": return "OUT(%s);" % v       # the definition is at file scope
        if c == "enum": return "{ enum { %s = %s }; OUT(%s); }" % (v, self.e(e), v)
        if c == "arr": return "{ static char %s[%s]; OUT(sizeof(%s)); }" % (v, self.e(e), v)
        if c == "arrt": return "OUT(sizeof(char[%s]));" % self.e(e)
        if c == "desig": return "{ static char %s[] = { [%s] = 1 }; OUT(sizeof(%s) - 1); }" % (v, self.e(e), v)
        if c == "align": return "{ struct { char c; _Alignas(%s) char d; } %s; OUT(_Alignof(%s)); }" % (self.e(e), v, v)
        if c == "bf": return "{ struct { unsigned f : %s; } s; unsigned long w, n = 0; s.f = -1; for (w = s.f; w; w >>= 1) n++; OUT(n); }" % self.e(e)
        if c == "case":
            return "switch ((%s)%s) { case %s: %s break; default: vp_t(-1); }" % (self.ty(s["_t"]), val, self.e(e), seen)
        if c == "range":
            return "switch ((%s)%s) { case %s ... %s: %s break; default: vp_t(-1); }" % (self.ty(s["_t"]), val, self.e(e), self.e(e), seen)
        if c == "if":
            lit = val if a == 16 else ("(-0x%x-1)" % (2**63-1) if w2i(w) == -2**63 else str(w2i(w)))
            self.nocast = True
            x = self.e(e)
            self.nocast = False
            return "\n#if (%s) == %s\n%s\n#else\nvp_t(-1);\n#endif\n" % (x, lit, seen)
        if c == "addr":
            return "{ static %s = %s; *%s = %s; }" % (self.ty(["p", s["_t"]], v), self.e(e[1][1]), v, self.e(e[2]))
        raise ValueError(c)
    def func(self, i):
        f = self.pr.funcs[i-1]
        declared = set()
        def scan(s):
            if s["op"] in ("decl", "vla", "vlad"): declared.add(s["v"])
            if s["op"] == "for" and s.get("fd"): declared.add(s["fd"])
            for k in ("b", "t", "els"):
                if isinstance(s.get(k), dict): scan(s[k])
            for c in s.get("ch", []): scan(c)
        if "bodys" in f: scan(f["bodys"])
        loc = "".join("\t%s%s;\n" % ("_Alignas(%d) " % self.pr.vars[v-1]["al"] if self.pr.vars[v-1].get("al") else "", self.ty(self.pr.vars[v-1]["t"], self.var(v))) for v in f["loc"] if v not in declared)
        par = ", ".join(self.ty(self.pr.vars[v-1]["t"], self.var(v)) for v in f["par"]) or "void"
        nm = self.fn(i)
        ret = "void" if i == self.pr.main else self.ty(f["ret"])
        if "bodys" in f:
            b = self.s(f["bodys"])
        else:
            b = "\treturn %s;" % self.e(f["body"])
        return "static %s %s(%s)\n{\n%s%s\n}" % (ret, nm, par, loc, b)
    def text(self):
        out = self.decls()
        for i in range(1, len(self.pr.funcs) + 1):
            out.append(self.func(i))
        return "\n".join(out)

HEAD = """void vp_i(int, long);
void vp_f(float); void vp_d(double); void vp_ld(long double);
void vp_t(int); void vp_b(int, void *, long); void vp_set(void *, char *, long);
void vp_pat(void *, long, int); void vp_zero(void *, long); void vp_begin(int); void vp_end(int);
void *alloca(unsigned long);
#define OUT(e) vp_i(_Generic(+(e), int:9, unsigned:8, long:17, unsigned long:16, long long:17, unsigned long long:16, default:99), (e))
#define OUTI(e) vp_i(16, (long)(e))
#define OUTF(e) _Generic((e), float: vp_f, double: vp_d, long double: vp_ld)(e)
"""

def expect_lines(out):
    ls = []
    for ev in out:
        k = ev[0]
        if k == "i": ls.append("i %d %x" % (ev[1], w2i(ev[2], False)))
        elif k == "f":
            v = int.from_bytes(bytes(ev[2]), "little")
            ls.append({4: "f %08x", 8: "d %016x", 16: "l %032x"}[ev[1]] % v)
        elif k == "t": ls.append("t %d" % ev[1])
        elif k == "b": ls.append("b %d %s" % (ev[1], "".join("%02x" % b if b >= 0 else "??" for b in ev[2])))
        elif k == "skip": ls.append("*")
    return ls

def isnan_hex(k, h):
    v = int(h, 16)
    e, f = {"f": (8, 23), "d": (11, 52), "l": (15, 112)}[k]
    return (v >> f) & ((1 << e) - 1) == (1 << e) - 1 and v & ((1 << f) - 1)

def line_eq(got, want):
    if want == "*": return True
    if got == want: return True
    g, w = got.split(" "), want.split(" ")
    if len(g) != len(w) or g[0] != w[0]: return False
    if g[0] in "fdl" and len(g) == 2:
        return bool(isnan_hex(g[0], g[1]) and isnan_hex(w[0], w[1]))
    if g[0] == "b" and g[1] == w[1] and len(g[2]) == len(w[2]):
        return all(w[2][i:i+2] == "??" or w[2][i:i+2] == g[2][i:i+2] for i in range(0, len(w[2]), 2))
    return False

def compare(got, want):
    for i in range(max(len(got), len(want))):
        g = got[i] if i < len(got) else "<missing>"
        w = want[i] if i < len(want) else "<nothing>"
        if not line_eq(g, w):
            return "event %d: got '%s', the specification says '%s'" % (i + 1, g, w)
    return None

MAXFOUND = int(os.environ.get("VP_MAXFOUND", "4"))
def run_texts(ck, label, items, chunk=24, cargs=(), opts=()):
    """items: list of (key, k, C text, entry function, expected lines).
    Compile with toycc in chunks, run, compare; on trouble retry one by one."""
    def build_run(its, d):
        src = HEAD + "\n".join(t for _, _, t, _, _ in its) + "\nint main(void)\n{\n" + "".join(
            "\tvp_begin(%d); %s(); vp_end(%d);\n" % (k, fn, k) for _, k, _, fn, _ in its) + "\treturn 0;\n}\n"
        c = ck.write(d + "/t.c", src)
        o = c[:-1] + "o"
        r = compile_toycc(ck, c, o, args=cargs)
        if r.rc:
            return None, "toycc failed (rc %d): %s" % (r.rc, r.err[-600:]), src
        exe = c[:-2]
        l = run([XGCC, "-static", "-o", exe, o, ck.rt(), "-lm"], timeout=120)
        if l.rc:
            return None, "link failed: " + l.err[-600:], src
        q = qemu(exe, timeout=10)
        return q, None, src
    def split(out):
        res, cur, k = {}, None, None
        for l in out.splitlines():
            if l.startswith("begin "): k = int(l[6:]); cur = []
            elif l.startswith("end "):
                if cur is not None and k == int(l[4:]): res[k] = cur
                cur = None
            elif cur is not None: cur.append(l)
        return res
    def judge(it, q, err, src):
        key, k, text, fn, want = it
        if err: return err
        got = split(q.out)
        if k not in got: return "program crashed or did not finish (rc %d) %s" % (q.rc, q.err[-200:])
        return compare(got[k], want)
    groups = [items[i:i+chunk] for i in range(0, len(items), chunk)]
    found = []
    def do(gi):
        g = groups[gi]
        if len(found) >= MAXFOUND: return []          # enough confirmed to report
        q, err, src = build_run(g, "%s/%d" % (label, gi))
        bad, tog = [], []
        for n, it in enumerate(g):
            j = judge(it, q, err, src)
            if j:
                if len(found) >= MAXFOUND: break
                # confirm on its own, in a fresh compilation
                q1, err1, src1 = build_run([it], "%s/%d_%d" % (label, gi, n))
                j1 = judge(it, q1, err1, src1)
                if j1:
                    found.append(1)
                    bad.append((it, j1, src1))
                elif not err:
                    tog.append((it, j + " [only together with other programs]", src))
        if not bad: bad = tog
        if err and not bad:
            bad.append((g[0], err + " [together with other programs]", src))
        return bad
    nbad = 0
    ck.rt()
    for bad in pmap(do, range(len(groups))):
        for it, why, src in bad:
            nbad += 1
            ck.violation("%s:%s" % (label, it[0]), "%s program %s: %s" % (label, it[0], why), {"t.c": src, "expected.txt": "\n".join(it[4])}, src)
    ck.traces += len(items)
    return nbad

def model_and_replay(ck, label, progs, cargs=(), chunk=24, module="CMachine"):
    """Run CMachine on the programs, then replay the defined ones."""
    if not progs: return 0
    res = ck.tlc(module, batch=[p.model() for p in progs], name="%s/%s" % (module, label))
    items, ub, om = [], {}, {}
    seen = set()
    for r in res:
        k, st, steps, out = json.loads(r)
        if k in seen: continue
        seen.add(k)
        if st != "done":
            ub[st] = ub.get(st, 0) + 1
            continue
        pr = progs[k-1]
        omit = [ev[1] for ev in out if ev[0] == "omit"]
        for ev in out:
            if ev[0] == "omit": om[ev[2]] = om.get(ev[2], 0) + 1
        out = [ev for ev in out if ev[0] != "omit"]
        R = Render(pr, k, omit=omit)
        if pr.consts:
            ids = [n for n, nd in enumerate(pr.stmts, 1) if nd["op"] in ("try", "dump") and (nd["op"] == "dump" or nd["o"]) and n not in R.omit]
            R.vals = dict(zip(ids, out))
            for n, nd in enumerate(pr.stmts, 1): R.vals.setdefault(n, ["", 0, [0]*8])
        items.append((pr.key or str(k), k, R.text(), "f%d_main%d" % (k, pr.main), expect_lines(out)))
    if len(seen) != len(progs):
        raise Broken("model gave %d results for %d programs" % (len(seen), len(progs)))
    items.sort(key=lambda x: x[1])
    n = ck.extra.setdefault("programs", {})
    n[label] = dict(generated=len(progs), defined=len(items), undefined=ub, omitted_statements=om, events=sum(len(i[4]) for i in items),
                    skipped_events=sum(i[4].count("*") for i in items))
    if items:
        it = items[len(items)//2]
        ck.sample(dict(program=it[2][:1500], expected=it[4][:12]))
    return run_texts(ck, label, items, chunk=chunk, cargs=cargs)
