"""Signatures and calls for CallConv.tla: the compiled caller against a
recording callee, and the compiled callee called with the model's image."""
import json, struct
from lib import *
from cprog import *

SC = [BOOL, I8, U8, I16, U16, I32, I32, U32, I64, I64, U64, F32, F32, F64, F64, F128, ["p", I8]]

class Sig:
    def __init__(self, rng):
        self.rng = rng
        self.tags = []
    def tag(self):
        r = self.rng
        if self.tags and r.random() < .3: return ["s", r.randint(1, len(self.tags))]
        def m(t, bf=-1, al=0): return dict(t=t, bf=bf, al=al, nm=1)
        x = r.random()
        ms = []
        if x < .12: ms = [m(["a", r.choice([I8, U8]), r.randint(1, 24)])]
        elif x < .18: ms = [m(F128)]                                  # aligned to 16, integer convention
        elif x < .24: ms = [m(r.choice([I8, I32, I64]), al=16)]
        elif x < .30: ms = [m(["a", I64, r.randint(1, 5)]), m(r.choice(INTS))]
        elif x < .36 and self.tags: ms = [m(["s", r.randint(1, len(self.tags))]), m(r.choice(INTS))]
        else:
            for _ in range(r.randint(1, 5)):
                y = r.random()
                if y < .15:
                    t = r.choice([I32, U32, U8, I64]); ms.append(m(t, r.randint(1, 8 * t[1])))
                elif y < .3: ms.append(m(["a", r.choice([I8, I16, I32]), r.randint(1, 3)]))
                elif y < .36: ms.append(m(["p", I8]))
                else: ms.append(m(r.choice(INTS + [I64])))
        self.tags.append(dict(un=int(r.random() < .2), pk=int(r.random() < .06 and all(q["bf"] < 0 for q in ms)), al=0, mem=ms))
        return ["s", len(self.tags)]
    def size(self, t):
        if t[0] == "a":
            s, a = self.size(t[1]); return s * t[2], a
        if t[0] != "s": return (8, 8) if t[0] == "p" else (t[1], t[1])
        g = self.tags[t[1]-1]; bits = 0; al = 1
        for m in g["mem"]:
            s, a = self.size(m["t"])
            if g["pk"]: a = 1
            if m["al"]: a = m["al"]
            al = max(al, a)
            if m["bf"] > 0:
                u = 8 * s
                at = 0 if g["un"] else bits if bits // u == (bits + m["bf"] - 1) // u else -(-bits // u) * u
                bits = max(bits, at + m["bf"])
            else:
                at = 0 if g["un"] else -(-bits // (8*a)) * 8 * a
                bits = max(bits, at + 8 * s)
        return -(-(-(-bits // 8)) // al) * al, al
    def typ(self):
        return self.tag() if self.rng.random() < .3 else self.rng.choice(SC)
    def val(self, t):
        r = self.rng
        if t[0] == "p": return i2w(r.getrandbits(64))
        if t[0] == "i":
            lo, hi = irange(t)
            return i2w(r.choice([lo, hi, r.randint(lo, hi), r.randint(lo, hi), -1 if lo < 0 else hi]))
        if t[0] == "f": return fbytes(r.choice([r.uniform(-1e6, 1e6), r.uniform(-4, 4), 0.0, -0.0, 1.5]) if t[1] > 4 else struct.unpack("<f", struct.pack("<f", r.uniform(-1e6, 1e6)))[0], t[1])
        b = [r.getrandbits(8) for _ in range(self.size(t)[0])]
        self.fixbool(t, b, 0)
        return b
    def fixbool(self, t, b, off):
        if t == BOOL: b[off] &= 1
        elif t[0] == "a":
            for i in range(t[2]): self.fixbool(t[1], b, off + i * self.size(t[1])[0])
        elif t[0] == "s":
            g = self.tags[t[1]-1]; bits = 0
            for m in g["mem"]:
                s, a = self.size(m["t"])
                if g["pk"]: a = 1
                if m["al"]: a = m["al"]
                if m["bf"] > 0:
                    u = 8 * s
                    at = 0 if g["un"] else bits if bits // u == (bits + m["bf"] - 1) // u else -(-bits // u) * u
                    bits = max(bits, at + m["bf"])
                else:
                    at = 0 if g["un"] else -(-bits // (8*a)) * 8 * a
                    bits = max(bits, at + 8 * s)
                    self.fixbool(m["t"], b, off + at // 8)

def prom(t, v):
    """a variadic argument after the default promotions"""
    if t[0] == "i" and t[3] < 3: return I32, v
    if t == F32: return F64, list(struct.pack("<d", struct.unpack("<f", bytes(v))[0]))
    return t, v

def sig(rng, fill=None, extra=None):
    s = Sig(rng)
    n = rng.choice([0, 1, 2, 3, 4, 5, 6, 8, 10, 12, 16, 20])
    ps = [s.typ() for _ in range(n)] if fill is None else [rng.choice([I64, I32, I8]) for _ in range(fill[0])] + [rng.choice([F64, F32]) for _ in range(fill[1])]
    if fill is not None:
        rng.shuffle(ps)
        for _ in range(rng.choice([1, 2, 3])): ps.append(rng.choice([s.tag, s.tag, lambda: F128, s.typ])())
    s.ret = rng.choice([VOID, s.typ(), s.tag(), rng.choice(SC)])
    s.var = bool(ps) and rng.random() < .35
    s.nfix = rng.randint(1, len(ps)) if s.var else len(ps)
    s.ps = ps
    s.vs = [s.val(t) for t in ps]
    s.rv = [] if s.ret == VOID else s.val(s.ret)
    s.fp = rng.random() < .3
    s.style = [rng.random() for _ in ps]
    s.seed = rng.random()
    return s
def model(s):
    a = []
    for i, (t, v) in enumerate(zip(s.ps, s.vs)):
        va = i >= s.nfix
        if va: t, v = prom(t, v)
        a.append(dict(t=t, v=v, var=int(va)))
    return dict(tags=s.tags, ret=s.ret, rv=s.rv, args=a)

def cbytes(b): return '"%s"' % "".join("\\x%02x" % x for x in b)
def hexm(b): return "".join("??" if x < 0 else "%02x" % x for x in b)
def flat(ws): return [x for w in ws for x in w]

def bytes_of(s, t, v):
    """object bytes of a value"""
    if t[0] == "i": return v[:t[1]]
    return v

def text(s, k, img):
    areg, freg, stk, refs, res = img
    rng = random.Random(str(s.seed))
    pr = Prog(); pr.tags = s.tags
    R = Render(pr, k)
    # every struct type needs a name for its members only, so Render's text is enough
    T = [R.tagdef(i + 1) for i in range(len(s.tags))]
    T.insert(0, "#include <stdarg.h>")
    T.append("extern long vp_nstk, vp_nref, vp_refat[32], vp_refn[32], vp_retn; extern unsigned long vp_out[3]; extern void *vp_retm;")
    T.append("long vp_idl(long); double vp_idd(double); float vp_idf(float);")
    ret = lambda inner: R.ty(s.ret, inner) if s.ret != VOID else "void " + inner
    plist = ", ".join([R.ty(t) for t in s.ps[:s.nfix]] + (["..."] if s.var else [])) or "void"
    pre, args = [], []
    for i, (t, v) in enumerate(zip(s.ps, s.vs)):
        nm = "av%d_%d" % (k, i)
        T.append("static %s;" % R.ty(t, nm))
        ob = bytes_of(s, t, v)
        pre.append("vp_set(&%s, %s, %d);" % (nm, cbytes(ob), len(ob)))
        x = s.style[i]; e = nm
        if t[0] == "i" and x < .25: e = "(%s)vp_idl(%s)" % (R.ty(t), nm)
        elif t[0] == "i" and i < s.nfix and t[3] and x < .4: e = "(long)0x%xL" % (int.from_bytes(bytes(ob), "little") | rng.getrandbits(62) << 8 * t[1] & (2**63 - 1))
        elif t == F64 and x < .25: e = "vp_idd(%s)" % nm
        elif t == F32 and x < .25: e = "vp_idf(%s)" % nm
        elif t[0] == "s" and x < .25:
            T.append("static %s { return %s; }" % (R.ty(t, "mk%d_%d(void)" % (k, i)), nm)); e = "mk%d_%d()" % (k, i)
        elif t[0] == "s" and x < .4: e = "*&%s" % nm
        elif x > .85:        # through a call that itself needs the stack
            lead = rng.randint(0, 10); odd = rng.choice(["long", "double", "long double", "char"])
            T.append("static %s { return p; }" % R.ty(t, "ne%d_%d(%s%s)" % (k, i, "".join("%s a%d, " % (odd, j) for j in range(lead)), R.ty(t, "p"))))
            e = "ne%d_%d(%s%s)" % (k, i, "".join("%d, " % rng.randint(-9, 99) for j in range(lead)), nm)
        args.append(e)
    want = []
    # --- the compiled caller
    n = k % 4000
    T.append("%s;" % ret("vp_cap_%d(%s)" % (n, plist)))
    body = list(pre)
    body.append("vp_nstk = %d; vp_nref = %d; vp_retn = 0;" % (len(stk), len(refs)))
    for j, (i, at, b) in enumerate(refs):
        body.append("vp_refat[%d] = %d; vp_refn[%d] = %d;" % (j, at[1] + (100 if at[0] == "s" else 0), j, len(b)))
    def fillw(w): return int.from_bytes(bytes(rng.getrandbits(8) if x < 0 else x for x in w), "little")
    o = [rng.getrandbits(64) for _ in range(3)]
    if res[0] == "a":
        for j, w in enumerate(res[1]): o[j] = fillw(w)
    if res[0] == "f": o[2] = fillw(res[1][0])
    for j in range(3): body.append("vp_out[%d] = 0x%xUL;" % (j, o[j]))
    T.append("static char rb%d[%d];" % (k, max(1, len(s.rv))))
    if s.rv: body.append("vp_set(rb%d, %s, %d);" % (k, cbytes(bytes_of(s, s.ret, s.rv)), len(bytes_of(s, s.ret, s.rv))))
    if res[0] == "m": body.append("vp_retm = rb%d; vp_retn = %d;" % (k, len(s.rv)))
    fn = "vp_cap_%d" % n
    if s.fp: fn = "fp%d" % k; T.append("static %s = vp_cap_%d;" % (ret("(*fp%d)(%s)" % (k, plist)), n))
    call = "%s(%s)" % (fn, ", ".join(args))
    want.append("b 1 " + hexm(flat(areg))); want.append("b 2 " + hexm(flat(freg)))
    want.append("b 3 " + hexm(stk)); want.append("i 16 0")
    for _, _, b in refs: want.append("b 4 " + hexm(b))
    def show(t, e, v):
        if t[0] == "i": want.append("i 16 %x" % w2i(v, False)); return "OUTI(%s);" % e
        if t[0] == "p": want.append("i 16 %x" % w2i(v, False)); return "OUTI(%s);" % e
        if t[0] == "f":
            x = int.from_bytes(bytes(v), "little")
            want.append({4: "f %08x", 8: "d %016x", 16: "l %032x"}[t[1]] % x)
            return "%s(%s);" % ({4: "vp_f", 8: "vp_d", 16: "vp_ld"}[t[1]], e)
        want.append("b 5 " + hexm(v)); return "vp_b(5, &%s, sizeof %s);" % (e, e)
    omask = {}
    for i, (t, v) in enumerate(zip(s.ps, s.vs)):
        if t[0] == "s": omask[i] = mask(s, t, v)
    if s.ret == VOID: body.append(call + ";")
    else:
        body.append("{ %s = %s;" % (R.ty(s.ret, "r"), call))
        body.append(show(s.ret, "r", s.rv if s.ret[0] != "s" else mask(s, s.ret, s.rv)) + " }")
    # the arguments themselves are untouched
    for i, (t, v) in enumerate(zip(s.ps, s.vs)):
        if t[0] == "s": body.append(show(t, "av%d_%d" % (k, i), omask[i]))
    T.append("static void ca%d(void)\n{\n%s\n}" % (k, "\n".join(body)))
    # --- the compiled callee
    T.append("struct vp_img%d { unsigned long a[8], f[8], nstk; unsigned long *stk; unsigned long out[3]; long bad; };" % k)
    T.append("void vp_invoke(void *, void *, void *, long);")
    named = ", ".join([R.ty(t, "p%d" % i) for i, t in enumerate(s.ps[:s.nfix])] + (["..."] if s.var else [])) or "void"
    cb = []
    for i, (t, v) in enumerate(zip(s.ps, s.vs)):
        if i < s.nfix: cb.append(show(t, "p%d" % i, v if t[0] != "s" else omask[i]))
        else:
            if i == s.nfix: cb.insert(0, "va_list ap; va_start(ap, p%d);" % (s.nfix - 1))
            t2, v2 = prom(t, v)
            cb.append("{ %s = va_arg(ap, %s); %s }" % (R.ty(t2, "q"), R.ty(t2), show(t2, "q", v2 if t2[0] != "s" else omask[i])))
            if rng.random() < .15:
                T.append("static %s { %s = va_arg(a, %s); return r; }" % (R.ty(t2, "va%d_%d(va_list a)" % (k, i)), R.ty(t2, "r"), R.ty(t2)))
                cb[-1] = "{ va_list c; va_copy(c, ap); %s = va%d_%d(c); va_arg(ap, %s); %s" % (R.ty(t2, "q"), k, i, R.ty(t2), cb[-1][cb[-1].rindex(";", 0, cb[-1].rindex(";")) + 1:].lstrip())
                want.pop()
                cb[-1] = "{ va_list c; va_copy(c, ap); %s = va%d_%d(c); va_arg(ap, %s); %s }" % (R.ty(t2, "q"), k, i, R.ty(t2), show(t2, "q", v2 if t2[0] != "s" else omask[i]))
    if s.var and s.nfix < len(s.ps): cb.append("va_end(ap);")
    for i, t in enumerate(s.ps[:s.nfix]):
        if rng.random() < .3: cb.append("vp_zero(&p%d, sizeof p%d);" % (i, i))
    if s.ret != VOID:
        T.append("static %s;" % R.ty(s.ret, "rv%d" % k))
        rest = "return rv%d;" % k
        ob = bytes_of(s, s.ret, s.rv)
        pre2 = ["vp_set(&rv%d, %s, %d);" % (k, cbytes(ob), len(ob))]
    else: rest, pre2 = "", []
    T.append("%s\n{\n%s\n%s\n}" % (("static " if rng.random() < .5 else "") + ret("ce%d(%s)" % (k, named)), "\n".join(cb), rest))
    iv = ["static char rt%d[%d];" % (k, max(1, len(s.rv)))]
    T += ["_Alignas(16) " + iv[0]]
    b2 = pre2 + ["static struct vp_img%d im;" % k]
    A = [fillw(w) for w in areg]; F = [fillw(w) for w in freg]
    S = [fillw(stk[8*j:8*j+8]) for j in range(len(stk) // 8)]
    for j in range(8): b2.append("im.a[%d] = 0x%xUL; im.f[%d] = 0x%xUL;" % (j, A[j], j, F[j]))
    if S:
        T.append("static unsigned long sk%d[%d];" % (k, len(S)))
        for j, x in enumerate(S): b2.append("sk%d[%d] = 0x%xUL;" % (k, j, x))
        b2.append("im.nstk = %d; im.stk = sk%d;" % (len(stk), k))
    if res[0] == "m": b2.append("im.a[0] = (unsigned long)rt%d;" % k)
    for j, (i, at, b) in enumerate(refs):
        T.append("static _Alignas(16) char rf%d_%d[%d];" % (k, j, len(b)))
        b2.append("vp_set(rf%d_%d, %s, %d);" % (k, j, cbytes([rng.getrandbits(8) if x < 0 else x for x in b]), len(b)))
        if at[0] == "a": b2.append("im.a[%d] = (unsigned long)rf%d_%d;" % (at[1], k, j))
        else: b2.append("sk%d[%d] = (unsigned long)rf%d_%d;" % (k, at[1] // 8, k, j))
    b2.append("vp_invoke(ce%d, &im, rt%d, %d);" % (k, k, len(s.rv) if res[0] == "m" else 0))
    want.append("i 16 0")
    out = [-1] * 16; fo = [-1] * 8
    if res[0] == "a":
        for j, w in enumerate(res[1]): out[8*j:8*j+8] = w
    if res[0] == "f": fo = res[1][0]
    want.append("b 1 " + hexm(out)); want.append("b 2 " + hexm(fo))
    if res[0] == "m": want.append("b 3 " + hexm(res[1]))
    T.append("static void cb%d(void)\n{\nstatic int once;\n%s\n}" % (k, "\n".join(b2)))
    T.append("static void cx%d(void) { ca%d(); cb%d(); }" % (k, k, k))
    return "\n".join(x for x in T if x), "cx%d" % k, want

def mask(s, t, v):
    """value bytes with -1 for padding, as CTypes' ValueBytes has it"""
    vb = set()
    def go(t, off):
        if t[0] == "a":
            for i in range(t[2]): go(t[1], off + i * s.size(t[1])[0])
        elif t[0] == "s":
            g = s.tags[t[1]-1]; bits = 0
            for m in g["mem"]:
                sz, a = s.size(m["t"])
                if g["pk"]: a = 1
                if m["al"]: a = m["al"]
                if m["bf"] > 0:
                    u = 8 * sz
                    at = 0 if g["un"] else bits if bits // u == (bits + m["bf"] - 1) // u else -(-bits // u) * u
                    bits = max(bits, at + m["bf"])
                    vb.update(off + x for x in range(at // 8, (at + m["bf"] - 1) // 8 + 1))
                else:
                    at = 0 if g["un"] else -(-bits // (8*a)) * 8 * a
                    bits = max(bits, at + 8 * sz)
                    go(m["t"], off + at // 8)
        else: vb.update(range(off, off + s.size(t)[0]))
    go(t, 0)
    return [x if i in vb else -1 for i, x in enumerate(v)]

def run_sigs(ck, label, sigs):
    res = ck.tlc("CallConv", batch=[model(s) for s in sigs], name="CallConv/" + label)
    imgs = {}
    for r in res:
        x = json.loads(r); imgs[x[0]] = x[1:]
    if len(imgs) != len(sigs): raise Broken("model gave %d results for %d signatures" % (len(imgs), len(sigs)))
    items = []
    for k in sorted(imgs):
        tx, fn, want = text(sigs[k-1], k, imgs[k])
        items.append((str(k), k, tx, fn, want))
    ck.extra.setdefault("signatures", {})[label] = dict(n=len(sigs), variadic=sum(s.var for s in sigs), args=sum(len(s.ps) for s in sigs),
        stack=sum(bool(imgs[k][2]) for k in imgs), by_reference=sum(bool(imgs[k][3]) for k in imgs), big_results=sum(imgs[k][4][0] == "m" for k in imgs))
    ck.sample(dict(program=items[len(items)//2][2][:1500], expected=items[len(items)//2][4][:12]))
    return run_texts(ck, label, items)
