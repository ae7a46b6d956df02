"""Operator x type x type x value matrix: IntMatrix.tla enumerates it, the
generated functions are compiled by toycc and driven by a gcc-compiled table."""
import json, os
from lib import *

TY = [("_Bool", ["i",1,0,0]), ("signed char", ["i",1,1,1]), ("unsigned char", ["i",1,0,1]),
      ("short", ["i",2,1,2]), ("unsigned short", ["i",2,0,2]), ("int", ["i",4,1,3]),
      ("unsigned", ["i",4,0,3]), ("long", ["i",8,1,4]), ("unsigned long", ["i",8,0,4]),
      ("char", ["i",1,1,1]), ("long long", ["i",8,1,5]), ("unsigned long long", ["i",8,0,5]), ("enum vp_e", ["i",4,1,3])]
NAMES = "b i8 u8 i16 u16 i32 u32 i64 u64 ch ll ull en".split()

def values(rng, t, extra):
    _, sz, sg, rk = t
    if rk == 0:
        return [0, 1]
    bits = 8 * sz
    lo, hi = (-(1 << bits - 1), (1 << bits - 1) - 1) if sg else (0, (1 << bits) - 1)
    s = [0, 1, hi, lo, -1 if sg else hi // 2 + 1, 5]
    cand = [128, 255, 256, 32767, 32768, 65535, 65536, 2**31 - 1, 2**31, 2**32 - 1, 2**32, -128, -129, -2**31, 2**63, 31, 63, 7, -7, 100]
    cand = [c for c in cand if lo <= c <= hi and c not in s]
    rng.shuffle(cand)
    s += cand[:extra]
    for _ in range(2):
        s.append(rng.randint(lo, hi))
    out = []
    for v in s:
        if v not in out:
            out.append(v)
    return out

CODE = '_Generic((%s), _Bool:2, char:3, signed char:3, unsigned char:2, short:5, unsigned short:4, int:9, unsigned:8, long:17, unsigned long:16, default:99)'
def code(t):
    return t[1] * 2 + t[2]

def expr(f, x, y, tn2, t1=None):
    k, op = f
    if k in ("bin", "log"): return "%s %s %s" % (x, op, y)
    if k == "un": return "%s %s" % (op, x)
    if k == "cast": return "(%s)%s" % (tn2, x)
    if k == "asg": return "%s %s= %s" % (x, op, y)
    if k == "pre": return "%s%s%s" % (op, op, x)
    if k == "post": return "%s%s%s" % (x, op, op)
    if k == "cond": return "(%s ? %s : %s)" % ("vp_one" if op == "1" else "vp_zero", x, y)

def is_enum(f, ti, tj):
    # an enumerated type is compatible with an implementation-defined integer type
    return (f[0] == "cast" and tj == 12) or (f[0] in ("asg", "pre", "post") and ti == 12) or (f[0] == "cond" and ti == tj == 12)

def matrix(ck, forms, tidx, extra, label):
    rng = ck.rng_for("matrix", label)
    types = [TY[i][1] for i in tidx]
    vals = [values(rng, TY[i][1], extra) for i in tidx]
    vt = ck.tlc("IntMatrix", batch=dict(types=types, vals=[[i2w(v) for v in vs] for vs in vals], forms=forms), name="IntMatrix/" + label)
    results = sorted((json.loads(r) for r in vt), key=lambda r: r[:3])
    # one translation unit for toycc per chunk, one gcc table driver
    nchunk = 8
    chunks = [results[k::nchunk] for k in range(nchunk)]
    decl = "enum vp_e { VP_A, VP_B = 2147483647, VP_C = -2147483647-1 };\nextern int vp_one, vp_zero;\nextern long vp_out[4];\n"
    decl += "".join("extern %s x_%s, y_%s;\n" % (TY[i][0], NAMES[i], NAMES[i]) for i in tidx)
    total = sum(1 for r in results for row in r[4] for c in row if c)
    def do(ci):
        toy = [decl]
        drv = []
        for n, (fi, i, j, rt, tab) in enumerate(chunks[ci]):
            f = forms[fi-1]
            ti, tj = tidx[i-1], tidx[j-1]
            X, Y = "x_" + NAMES[ti], "y_" + NAMES[tj]
            e = expr(f, X, Y, TY[tj][0])
            if (fi + i + j + SEED) % 3 == 0:     # operands in locals
                pre = "%s x=%s; %s y=%s;" % (TY[ti][0], X, TY[tj][0], Y)
                e = expr(f, "x", "y", TY[tj][0]); post = "%s = x;" % X
                gen = e
            elif (fi + i + j + SEED) % 3 == 1:   # operands in parameters
                pre = None; e = expr(f, "x", "y", TY[tj][0]); post = ""; gen = e
            else:
                pre = ""; post = ""; gen = e
            side = f[0] in ("asg", "pre", "post")
            body = "vp_out[0] = (long)(%s);" % e
            if not side:
                body += " vp_out[1] = (%s) ? 1 : 0;" % e
            else:
                body += " vp_out[1] = -1;"
            body += " vp_out[2] = %s;" % (CODE % gen)
            if pre is None:
                toy.append("static void g_%d(%s x, %s y) { %s %s}\nvoid f_%d_%d(void) { g_%d(%s, %s); }" %
                           (n, TY[ti][0], TY[tj][0], body, (X + " = x;") if side else "", ci, n, n, X, Y))
            else:
                toy.append("void f_%d_%d(void) { %s %s %s }" % (ci, n, pre, body, post))
            drv.append((n, fi, i, j, rt, tab, side, code(rt), e))
        src = ck.write("m%s/%d/t.c" % (label, ci), "\n".join(toy) + "\n")
        obj = os.path.join(os.path.dirname(src), "t.o")
        r = compile_toycc(ck, src, obj, timeout=120)
        if r.rc:
            return [("compile", r.err[-500:], src, None)]
        g = ["#include <stdio.h>", decl.replace("extern ", "")]
        g.append("".join("static const long v%d[] = {%s};\n" % (k, ",".join("(long)0x%xUL" % (v & (2**64-1)) for v in vs)) for k, vs in enumerate(vals)))
        g.append("struct c { unsigned char ok; long v, w; };")
        main = ["int vp_one=1, vp_zero=0;"] and []
        for n, fi, i, j, rt, tab, side, cd, e in drv:
            cells = [c for row in tab for c in row]
            g.append("static const struct c e%d[] = {%s};\nvoid f_%d_%d(void);" % (n, ",".join(
                "{1,0x%xL,0x%xL}" % (w2i(c[0], False), w2i(c[1], False)) if c else "{0}" for c in cells), ci, n))
            ti, tj = tidx[i-1], tidx[j-1]
            unary = len(tab[0]) if tab else 0
            main.append("for (int a = 0; a < %d; a++) for (int b = 0; b < %d; b++) { const struct c *c = &e%d[a*%d+b]; if (!c->ok) continue;"
                        " x_%s = v%d[a]; y_%s = v%d[b]; f_%d_%d();"
                        " if (vp_out[0] != c->v || %s %s) printf(\"bad %d %%d %%d got %%lx %%ld %%ld %%lx want %%lx %d %%lx\\n\", a, b, vp_out[0], vp_out[1], vp_out[2], (long)x_%s, c->v, c->w); }"
                        % (len(tab), len(tab[0]), n, len(tab[0]), NAMES[ti], i-1, NAMES[tj], j-1, ci, n, 'vp_out[2] != %d' % cd if not (is_enum(forms[fi-1], ti, tj)) else '0',
                           ("|| (long)x_%s != c->w" % NAMES[ti]) if side else "|| vp_out[1] != (c->v != 0)", n, cd, NAMES[ti]))
        g.append("int vp_run_all(void) {\n%s\n return 0; }\nint main(void) { vp_one = 1; vp_run_all(); printf(\"done\\n\"); return 0; }" % "\n".join(main))
        gs = ck.write("m%s/%d/d.c" % (label, ci), "\n".join(g))
        run([XGCC, "-O1", "-w", "-c", gs, "-o", os.path.join(os.path.dirname(src), "d.o")], check=True, timeout=300)
        exe = os.path.join(os.path.dirname(src), "x")
        link([obj, os.path.join(os.path.dirname(src), "d.o")], exe)
        q = qemu(exe, timeout=120)
        bad = []
        lines = q.out.splitlines()
        if not lines or lines[-1] != "done":
            bad.append(("run", "program did not finish: rc %s %s" % (q.rc, q.err[-300:]), src, None))
        for l in lines:
            if l.startswith("bad "):
                n, a, b = map(int, l.split()[1:4])
                _, fi, i, j, rt, tab, side, cd, e = drv[n]
                bad.append(("matrix", "form %s on (%s)%d, (%s)%d: %s" % (forms[fi-1], TY[tidx[i-1]][0], vals[i-1][a], TY[tidx[j-1]][0], vals[j-1][b], l), src,
                            "%s.%s.%s.%s" % ("".join(forms[fi-1]), NAMES[tidx[i-1]], NAMES[tidx[j-1]], e.replace(" ", ""))))
        return bad
    for bad in pmap(do, range(nchunk)):
        seen = {}
        for kind, what, src, key in bad:
            k = key or "%s.%s" % (label, kind)
            if k in seen:
                continue
            seen[k] = 1
            ck.violation("matrix:" + k, what, {"t.c": open(src).read()})
    ck.traces += total
    ck.extra["matrix_cells_" + label] = total
    f = results[len(results)//3]
    ck.sample(dict(form=forms[f[0]-1], t1=TY[tidx[f[1]-1]][0], t2=TY[tidx[f[2]-1]][0], result_type=f[3], first_row=f[4][0][:3]))
    return total
