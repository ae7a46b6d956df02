"""Source bytes for Lexer.tla: token soup, literals and glued expressions."""
import json, os
from lib import *
from cprog import run_texts

SPEC = os.environ.get("VP_SPEC_CHECK")
MACROS = ["e", "E", "p", "P", "x", "f", "L", "U", "u", "u8", "R", "_", "a", "ab", "l", "ul", "e1", "x1", "_1", "\u00e9", "a\u00e9", "$"]
def mval(m): return str(7001 + MACROS.index(m))
BOUND = [0xa7, 0xa8, 0xa9, 0xaa, 0xb5, 0xb6, 0xb7, 0xbf, 0xc0, 0xd6, 0xd7, 0xd8, 0xf6, 0xf7, 0xf8, 0x2ff, 0x300, 0x36f, 0x370, 0x167f, 0x1680, 0x1681, 0x180d, 0x180e, 0x180f,
  0x1dbf, 0x1dc0, 0x1dff, 0x1e00, 0x1fff, 0x2000, 0x200b, 0x200d, 0x200e, 0x202a, 0x202f, 0x203f, 0x2041, 0x2054, 0x2060, 0x2070, 0x20cf, 0x20d0, 0x20ff, 0x2100, 0x218f, 0x2190,
  0x2460, 0x2500, 0x2776, 0x2794, 0x2c00, 0x2e00, 0x2e80, 0x3000, 0x3001, 0x3004, 0x3008, 0x3021, 0x3030, 0x3031, 0x3040, 0xd7ff, 0xe000, 0xf8ff, 0xf900, 0xfd3d, 0xfd3e, 0xfd40, 0xfdcf,
  0xfdd0, 0xfdf0, 0xfe1f, 0xfe20, 0xfe2f, 0xfe30, 0xfe44, 0xfe45, 0xfe47, 0xfffd, 0xfffe, 0x10000, 0x1fffd, 0x1fffe, 0x20000, 0x2fffd, 0xe0000, 0xefffd, 0xf0000, 0x10ffff]
CPS = [0xe9, 0xdf, 0x3b1, 0x416, 0x5d0, 0x20ac, 0x3042, 0x4e2d, 0xfffd, 0x1f600, 0x10437, 0x2070e, 0x7ff, 0x800, 0xffff, 0x10000, 0x10ffff, 0xa0, 0x80 + 0x20]

def cp(rng, pool=CPS): return rng.choice(pool) if rng.random() < .8 else rng.choice([rng.randint(0xa0, 0xd7ff), rng.randint(0xe000, 0xffff), rng.randint(0x10000, 0x10ffff)])
def ucn(rng, c):
    x = rng.random()
    if x < .5: return chr(c).encode()
    if c < 0x10000 and x < .8: return b"\\u" + (b"%04x" if rng.random() < .5 else b"%04X") % c
    return b"\\U" + (b"%08x" if rng.random() < .5 else b"%08X") % c

def escape(rng, n):
    """an escape for units of n bytes"""
    x = rng.random()
    if x < .35: return b"\\" + rng.choice([b"a", b"b", b"t", b"n", b"v", b"f", b"r", b"e", b"'", b'"', b"?", b"\\"])
    if x < .7:
        v = rng.choice([0, 1, 7, 8, 63, 64, 0o177, 0o200, 0o377, rng.randrange(256), rng.randrange(64), rng.randrange(8)])
        s = b"\\" + (b"%o", b"%02o", b"%03o", b"%03o")[rng.randrange(4)] % v
        return s
    v = rng.getrandbits(8 * rng.randint(1, n)) if rng.random() < .7 else rng.choice([0, 1, (1 << 8 * n) - 1, 1 << 8 * n - 1, (1 << 8 * n - 1) - 1])
    return b"\\x" + b"0" * rng.choice([0, 0, 0, 1, 7]) + (b"%x" if rng.random() < .5 else b"%X") % v

def body(rng, q, n, k):
    o = b""
    for _ in range(k):
        x = rng.random()
        if x < .35:
            o += escape(rng, n)
            # what follows an octal escape of three digits is not part of it
            if re.search(rb"\\[0-7]{3}$", o) and rng.random() < .5: o += bytes([rng.choice(b"01237")])
        elif x < .55: o += ucn(rng, cp(rng))
        else:
            c = bytes([rng.choice(b"abcdefxu0123789 _%/*+-?!\"'@`$#")])
            if c == q: c = b"z"
            o += c
    return o
def unit(pre): return {b"": 1, b"u8": 1, b"u": 2, b"U": 4, b"L": 4}[pre]
def string(rng, pre=None, mx=6):
    if pre is None: pre = rng.choice([b"", b"", b"", b"u8", b"u", b"U", b"L"])
    return pre + b'"' + body(rng, b'"', unit(pre), rng.randint(0, mx)) + b'"'
def char(rng):
    pre = rng.choice([b"", b"", b"u", b"U", b"L"])
    if pre == b"" or rng.random() < .5:
        c = escape(rng, unit(pre)) if rng.random() < .6 else bytes([rng.choice([x for x in range(32, 127) if x not in b"'\\"])])
    else: c = ucn(rng, cp(rng, [c for c in CPS if pre != b"u" or c < 0x10000]))
    return pre + b"'" + c + b"'"
def integer(rng):
    b = rng.choice([10, 10, 16, 16, 8, 2])
    v = rng.choice([rng.getrandbits(rng.randint(1, 64)), (1 << rng.choice([7, 8, 15, 16, 31, 32, 63, 64])) - rng.choice([0, 1, 1, 2]), rng.randrange(300), 0])
    v &= 2**64 - 1
    s = {10: b"%d", 8: b"0%o", 16: rng.choice([b"0x%x", b"0X%X", b"0x%X", b"0x00%x"])}.get(b, b"") % v if b != 2 else rng.choice([b"0b", b"0B"]) + bin(v)[2:].encode()
    return s + rng.choice([b"", b"", b"", b"u", b"U", b"l", b"L", b"ul", b"UL", b"uL", b"lu", b"LU", b"Lu", b"ll", b"LL", b"ull", b"ULL", b"uLL", b"Ull", b"llu", b"LLU", b"LLu", b"llU"])
def floating(rng):
    d = lambda n: b"".join(rng.choice([b"0", b"1", b"2", b"3", b"4", b"5", b"6", b"7", b"8", b"9"]) for _ in range(rng.randint(0, n)))
    suf = rng.choice([b"", b"", b"f", b"F", b"l", b"L"])
    x = rng.random()
    ld = suf in (b"l", b"L")
    if x < .3:
        h = lambda n: b"".join(rng.choice([b"%x", b"%X"]) % rng.randrange(16) for _ in range(rng.randint(0, n)))
        a, c = h(8), h(8)
        if not a + c: a = b"1"
        m = a + (b"." + c if c or rng.random() < .3 else b"")
        return rng.choice([b"0x", b"0X"]) + m + rng.choice([b"p", b"P"]) + rng.choice([b"", b"+", b"-"]) + b"%d" % rng.choice([0, 1, 4, 10, 60, 140] + [150, 300] * (suf in (b"",)) ) + suf
    if ld:       # exactly representable in the host's long double
        return rng.choice([b"%d.%s" % (rng.randrange(10**6), rng.choice([b"", b"0", b"5", b"25", b"125", b"0625", b"5e0"])), b"%de%d" % (rng.randrange(1, 999), rng.randint(0, 12)), b".5", b"%d." % rng.getrandbits(53)]) + suf
    a, c = d(rng.choice([3, 8, 20])), d(rng.choice([3, 8, 20]))
    if not a + c: c = b"5"
    ex = b""
    if rng.random() < .6: ex = rng.choice([b"e", b"E"]) + rng.choice([b"", b"+", b"-"]) + b"%d" % rng.choice([0, 1, 2, 7, 10, 15, 22, 23] + [30, 37, 38, 45] + ([60, 100, 150] if suf == b"" else []))
    m = a + b"." + c if c or not ex or rng.random() < .5 else a
    return m + ex + suf
def badnum(rng):
    return rng.choice([b"08", b"09u", b"1f", b"0x", b"0b", b"0b2", b"0b12", b"1e", b"1e+", b"1.5ff", b"1.5u", b"0x1.8", b"0x1p", b"0x.p1", b"1uu", b"1lll", b"1lL", b"1LLl", b"1ulu", b"0x1g", b"12abc", b"1_0", b"1.2.3", b"1e5e", b"0xe+1", b"078", b"1fl", b"0x1.8f", b"1$", b"1u8", b"1\xc3\xa9", b"0b1.0", b"1..2", b"0x1p3p4", b"1p3"])

def comment(rng):
    return rng.choice([b"/**/", b"/* */", b"/***/", b"/*/ */", b"/* // */", b"/* \" */", b"/* ' \\ */", b"/*\n*/", b"/* a\r\nb */", b"/*\\\n*/", b"// x\n", b"//\"\n", b"// '\n", b"// /*\n", b"//\n", b"// a\\\nb c\n", b"// a\\\r\nq\n", b"/* \xc3\xa9 */", b"/* \xff */"])
def space(rng):
    return rng.choice([b" ", b" ", b"  ", b"\t", b"\n", b"\n", b"\n\n", b"\r\n", b"\r", b"\f", b"\v", b"\n \n", comment(rng), comment(rng)])
PUN = [b"+", b"-", b"*", b"/", b"%", b"=", b"<", b">", b"&", b"|", b"^", b"!", b"~", b"?", b":", b";", b",", b".", b"(", b")", b"[", b"]", b"{", b"}", b"#", b"##", b"->", b"...", b"..", b"<<=", b">>=", b"++", b"--", b"&&", b"||", b"==", b"@", b"`"]
def ident(rng):
    if rng.random() < .5: return rng.choice(MACROS).encode()
    return b"".join(rng.choice([b"a", b"b", b"e", b"x", b"_", b"L", b"u", b"8", b"1", b"$", b"Z"]) if rng.random() < .75 else ucn(rng, rng.choice(BOUND + CPS) if rng.random() < .6 else rng.choice([0xe9, 0x3b1, 0x4e2d, 0x10437])) for _ in range(rng.randint(1, 5)))
def piece(rng):
    x = rng.random()
    if x < .22: return ident(rng)
    if x < .36: return rng.choice([integer, floating, badnum])(rng)
    if x < .42: return rng.choice([b"1", b".", b".5", b"0x", b"e+", b"E-", b"p+", b"1.", b"1e", b"..", b"...", b"0", b"1_", b".1_a", b"1\\u00e9", b"__LINE__", b"__LINE__"])
    if x < .58: return rng.choice(PUN) + (rng.choice(PUN) if rng.random() < .5 else b"")
    if x < .68: return string(rng, mx=4)
    if x < .74: return char(rng)
    if x < .78: return rng.choice([b"'", b'"', b"u8'a'", b"L 'a'", b"u8 \"x\"", b"''", b'""', b"/*", b"//", b"*/", b"\x01", b"\xc3", b"\x80", b"\xe2\x82", b"\\", b"\\\\", b"LL\"x\"", b"uU'x'"])
    return space(rng)
def soup(rng):
    o = b"\xef\xbb\xbf" if rng.random() < .1 else b""
    for _ in range(rng.randint(1, 14)):
        o += piece(rng)
        if rng.random() < .4: o += space(rng)
    o = splice(rng, o, .02)
    return dict(src=list(o), mode="e")
def splice(rng, o, pr):
    r = b""
    for c in o:
        if rng.random() < pr: r += rng.choice([b"\\\n", b"\\\n", b"\\\r\n", b"\\\n\\\n"])
        r += bytes([c])
    return r
def literal(rng):
    x = rng.random()
    if x < .25: o = integer(rng)
    elif x < .5: o = floating(rng)
    elif x < .53: o = badnum(rng)
    elif x < .7: o = char(rng)
    else:
        n = rng.choice([1, 1, 1, 2, 2, 3, 4])
        pre = rng.choice([b"", b"u8", b"u", b"U", b"L"])
        ps = [rng.choice([b"", pre, pre]) for _ in range(n)]
        if rng.random() < .08: ps[rng.randrange(n)] = rng.choice([b"u8", b"u", b"U", b"L"])
        o = b""
        for i, q in enumerate(ps):
            # escapes must fit the type the whole literal gets
            s = b'"' + body(rng, b'"', min(unit(q), unit(pre)) if i or n > 1 else unit(q), rng.randint(0, 6)) + b'"'
            o += q + s + (space(rng) if rng.random() < .5 else b"")
    if rng.random() < .1: o = splice(rng, o, .1)
    return dict(src=list(o), mode="lit")
# expressions over int a, b, *p and a struct pointer, glued together
def expr(rng, d):
    if d == 0: return [rng.choice([b"a", b"b", b"c", b"*p", b"s->x", b"t.x", b"1", b"2", b"0x1e", b"0xe", b"07", b"1u", b"'a'", b"p[1]", b"\\u00e9", b"\xc3\xa9", b"a_b", b"$d", b"sizeof\"x\"", b"1.5", b".5", b"1.", b"1e+1", b"0x1p-1"])]
    x = rng.random()
    if x < .25: return [rng.choice([b"-", b"+", b"~", b"!", b"++", b"--", b"*&", b"- -", b"-", b"&*p-"])] + (expr(rng, d - 1) if rng.random() < .4 else [rng.choice([b"a", b"b", b"c"])])
    if x < .38: return [rng.choice([b"a", b"b", b"c", b"*p", b"s->x"]), rng.choice([b"++", b"--"])]
    if x < .5: return [b"("] + expr(rng, d - 1) + [b")"]
    if x < .58: return expr(rng, d - 1) + [b"?"] + expr(rng, d - 1) + [b":"] + expr(rng, d - 1)
    if x < .66: return [rng.choice([b"a", b"b", b"*p", b"s->x"]), rng.choice([b"=", b"+=", b"-=", b"*=", b"&=", b"|=", b"^=", b"<<=", b">>=", b"/=", b"%="])] + expr(rng, d - 1)
    return expr(rng, d - 1) + [rng.choice([b"+", b"-", b"*", b"/", b"%", b"&", b"|", b"^", b"&&", b"||", b"<", b">", b"<=", b">=", b"==", b"!=", b"<<", b">>", b","])] + expr(rng, d - 1)
def glued(rng):
    o = b""
    for t in expr(rng, rng.randint(1, 4)):
        o += t + (rng.choice([b" ", b"/**/", b"\\\n", b"\n", b"//\n"]) if rng.random() < .15 else b"")
    return dict(src=list(o), mode="g")

def model(ck, label, es):
    es = [e for e in es]
    res = set(ck.tlc("Lexer", batch=es, name="Lexer/" + label))
    out = {}
    for r in res:
        x = json.loads(r); out[x[0]] = x[1:]
    if len(out) != len(es): raise Broken("Lexer gave %d results for %d sources" % (len(out), len(es)))
    st = ck.extra.setdefault("lexer", {})[label] = dict(sources=len(es), accepted=sum(v[0] == "ok" for v in out.values()), rejected=sum(v[0] == "err" for v in out.values()),
        left_open=sum(v[0] == "odd" for v in out.values()), tokens=sum(len(v[2]) for v in out.values()))
    return out

def texp(t):
    """what -E shows of a token, given the macros"""
    s = bytes(t[1]).decode("utf-8", "surrogateescape")
    if t[0] == "i" and s in MACROS: return mval(s)
    if t[0] == "i" and s == "__LINE__": return None if t[4] == 0 else str(t[4])
    return s
def run_soup(ck, label, es, lines=False):
    """lines: also the line that the diagnostic of a rejected text names"""
    out = model(ck, label, es)
    pre = ck.write("macros.h", "".join("#define %s %s\n" % (m, mval(m)) for m in MACROS))
    def one(k):
        o, eln, toks, _ = out[k]
        if o == "odd" or any(t[0] == "p" and t[3] and bytes(t[1]) == b"#" for t in toks): return 0
        f = ck.path("soup", "%d.c" % k)
        with open(f, "wb") as h: h.write(bytes(es[k-1]["src"]))
        r = run([ck.toycc, "-E", "-include", pre, f], text=False, cwd=ck.path("soup")) if not SPEC else run([XGCC, "-E", "-std=c11", "-P", "-w", "-include", pre, f], text=False)
        if o == "err":
            if SPEC: return 0
            if r.rc == 0: ck.violation("lex:%s:%d" % (label, k), "invalid source accepted: %r" % bytes(es[k-1]["src"]), {"t.c": open(f, "rb").read()})
            elif r.rc < 0: ck.violation("lex:%s:%d" % (label, k), "compiler crashed on %r" % bytes(es[k-1]["src"]), {"t.c": open(f, "rb").read()})
            elif lines and eln and "%d.c:%d:\n" % (k, eln) not in r.err.decode("utf-8", "replace"):
                ck.violation("lex:%s:%d" % (label, k), "the diagnostic for %r is not at line %d" % (bytes(es[k-1]["src"]), eln), {"t.c": open(f, "rb").read()}, r.err.decode("utf-8", "replace")[:300])
            return 1
        # white space between tokens must be there where the source has it, and may be elsewhere
        rx = rb""
        for i, t in enumerate(toks):
            x = re.escape(texp(t).encode("utf-8", "surrogateescape")) if texp(t) is not None else rb"\d+"
            if SPEC: x = re.sub(rb"((?:\xc3[\x80-\xbf]|\xc2[\xa0-\xbf]|[\xc4-\xf4][\x80-\xbf]+))", lambda m: b"(?:" + m.group(1) + b"|\\\\u(?i:%04x)|\\\\U(?i:%08x))" % (ord(m.group(1).decode()), ord(m.group(1).decode())), x)
            rx += (rb"\s+" if i and (t[2] or t[3]) and not SPEC else rb"\s*") + x
        ok = r.rc == 0 and re.fullmatch(rx + rb"\s*", r.out)
        want, got = rx, r.out
        if not ok:
            ck.violation("lex:%s:%d" % (label, k), "tokens of %r" % bytes(es[k-1]["src"]), {"t.c": open(f, "rb").read()}, "want %s\ngot  %s\n%s" % (want, got, r.err.decode("utf-8", "replace")[-300:]))
        return 1
    n = sum(pmap(one, sorted(out)))
    ck.traces += n
    return n

GEN = "_Generic((%s), char *: 1, unsigned short *: 2, unsigned int *: 3, int *: 4, int: 5, unsigned int: 6, long: 7, unsigned long: 8, long long: 7, unsigned long long: 8, float: 9, double: 10, long double: 11, unsigned short: 12, default: 0)"
GENV = dict(int=5, uint=6, long=7, ulong=8, float=9, double=10, ldouble=11, ushort=12)
GENS = dict(char=1, ushort=2, uint=3, int=4)
CT = dict(char="char", ushort="unsigned short", uint="unsigned int", int="int")
ESZ = dict(char=1, ushort=2, uint=4, int=4)
def run_lits(ck, label, es):
    out = model(ck, label, es)
    items, bad = [], []
    for k in sorted(out):
        o, eln, toks, vals = out[k]
        src = bytes(es[k-1]["src"])
        if o == "odd" or (vals and vals[0][0] == "odd"): continue
        if o == "err" or len(vals) != 1 or vals[0][0] in ("err", "tok"):
            if len(vals) <= 1: bad.append(k)
            continue
        v = vals[0]
        lit = "\n%s\n" % src.decode("utf-8", "surrogateescape")
        T, W, body = [], [], []
        if v[0] == "str":
            n = len(v[2])
            body.append("OUTI(%s);" % (GEN % ("&(%s)[0]" % lit))); W.append("i 16 %x" % GENS[v[1]])
            body.append("OUTI(sizeof %s);" % lit); W.append("i 16 %x" % n)
            body.append("vp_b(1, %s, %d);" % (lit, n)); W.append("b 1 " + bytes(v[2]).hex())
            T.append("static %s g%d[] = %s;" % (CT[v[1]], k, lit)); body.append("vp_b(2, g%d, sizeof g%d);" % (k, k)); W.append("b 2 " + bytes(v[2]).hex())
            body.append("{ %s l[] = {%s}; vp_b(3, l, sizeof l); }" % (CT[v[1]], lit)); W.append("b 3 " + bytes(v[2]).hex())
        else:
            ty = v[1]; b = bytes(v[2])
            body.append("OUTI(%s);" % (GEN % lit)); W.append("i 16 %x" % GENV[ty])
            if ty in ("float", "double", "ldouble"):
                pr, fm, ct = {"float": ("vp_f", "f %08x", "float"), "double": ("vp_d", "d %016x", "double"), "ldouble": ("vp_ld", "l %032x", "long double")}[ty]
                x = fm % int.from_bytes(b, "little")
                body.append("%s(%s);" % (pr, lit)); W.append(x)
                T.append("static %s g%d = %s;" % (ct, k, lit)); body.append("%s(g%d);" % (pr, k)); W.append(x)
            else:
                x = int.from_bytes(b, "little", signed=ty in ("int", "long"))
                body.append("OUTI(%s);" % lit); W.append("i 16 %x" % (x & 2**64 - 1))
                T.append("static long g%d = %s; static char h%d[1 + (%s == %s)];" % (k, lit, k, lit, ("%dL" % x if -2**63 < x < 2**63 else "%dUL" % (x & 2**64 - 1))))
                body.append("OUTI(g%d); OUTI(sizeof h%d);" % (k, k)); W += ["i 16 %x" % (x & 2**64 - 1), "i 16 2"]
                if "\n" not in lit[1:-1] and "\r" not in lit and not re.search(r"//", lit):
                    body.append("\n#if %s == %s\nOUTI(1);\n#else\nOUTI(2);\n#endif" % (lit.strip("\n"), ("(-%d)" % -x if x < 0 else "%dU" % x if x >= 2**63 else "%d" % x))); W.append("i 16 1")
        T.append("static void cx%d(void) {\n%s\n}" % (k, "\n".join(body)))
        items.append((str(k), k, "\n".join(T), "cx%d" % k, W))
    if items: ck.sample(dict(literal=items[0][2][-400:], expected=items[0][4]))
    def reject(k):
        src = bytes(es[k-1]["src"])
        f = ck.path("bad", "%d.c" % k)
        with open(f, "wb") as h: h.write(b"int x = sizeof(\n" + src + b"\n);\n")
        r = run([XGCC if SPEC else ck.toycc, "-S", "-o", f + ".s", f], text=False, cwd=ck.path("bad"))
        if r.rc == 0: ck.violation("lit:%s:%d" % (label, k), "invalid literal accepted: %r" % src, {"t.c": open(f, "rb").read()})
        return 1
    ck.traces += sum(pmap(reject, bad))
    ck.extra["lexer"][label]["invalid"] = len(bad)
    return run_texts(ck, label, items)

def run_glued(ck, label, es):
    out = model(ck, label, es)
    def strip(s): return "\n".join(l for l in s.splitlines() if ".loc" not in l and ".file" not in l)
    cnt = dict(valid=0, invalid=0)
    def one(k):
        o, eln, toks, _ = out[k]
        if o != "ok": return
        src = bytes(es[k-1]["src"]); r = []
        spaced = b" ".join(bytes(t[1]) for t in toks)
        f = ck.path("glue", "%d.c" % k)
        for x in (src, spaced):
            with open(f, "wb") as h: h.write(b"struct S { int x; }; int f(int a, int b, int c, int *p, struct S *s, struct S t, int \xc3\xa9, int a_b, int $d) { return (int)(\n" + x + b"\n); }\n")
            r.append(run([XGCC if SPEC else ck.toycc, "-S", "-o", "-", f], text=False, cwd=ck.path("glue")))
        a, b = r
        cnt["valid" if b.rc == 0 else "invalid"] += 1
        if (a.rc == 0) != (b.rc == 0) or (a.rc == 0 and strip(a.out.decode()) != strip(b.out.decode())):
            with open(f, "ab") as h: h.write(b"// glued: " + src.replace(b"\n", b" ") + b"\n")
            ck.violation("glue:%s:%d" % (label, k), "%r is not read as %r" % (src, spaced), {"t.c": open(f, "rb").read()})
    pmap(one, sorted(out))
    ck.extra["lexer"][label].update(cnt)
    ck.traces += sum(cnt.values())
