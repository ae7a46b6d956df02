"""Cases for Atomics.tla and Tls.tla and their rendering as C."""
from gen import *

PTR = [["p", 8, s] for s in (1, 4, 24)]
ATYPES = [BOOL, I8, U8, I16, U16, I32, U32, I64, U64, F32, F64] + PTR
PT = {1: "char", 4: "int", 24: "struct Q24"}
def nm(t): return PT[t[2]] + " *" if t[0] == "p" else NAME[json.dumps(t)]
def size(t): return t[1]
def vbytes(r, t, small=False):
    """bytes of a value of type t"""
    if t[0] == "f": return fbytes(f32r(r.choice([0.0, 0.5, 1.0, 1.5, -2.25, 100.0, 3.75, -7.0, 1e6, 0.1])) if t[1] == 4 else r.choice([0.0, 0.5, 1.0, 1.5, -2.25, 100.0, 3.75, -7.0, 1e9, 0.1]), t[1])
    if t[0] == "p": return i2w(0x10000 + r.randrange(0, 1 << 40))
    if t == BOOL: return [r.randint(0, 1)]
    if small: v = r.randint(0 if not t[2] else -100, 100)
    else: v = interesting(r, t)
    return i2w(v)[:t[1]]
import struct
def f32r(v): return struct.unpack("<f", struct.pack("<f", v))[0]
IOPS = ["+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>"]

def an_op(r, t, kind, x):
    """an operation of that kind on an object of type t that holds x"""
    def operand():
        if t[0] == "p": return t, vbytes(r, t)
        tb = r.choice([t, t, r.choice(INTS), r.choice(INTS + [F32, F64])])
        if t[0] != "f" and tb[0] == "f": return tb, fbytes(r.choice([0.0, 0.5, 1.0, 2.5, 100.0]), tb[1])
        return tb, vbytes(r, tb)
    if kind == "load": return ["load"]
    if kind == "store": return ["store", *operand()]
    if kind == "xchg": return ["xchg", *operand()]
    if kind == "cas":
        tb, v = operand()
        return ["cas", list(x) if r.random() < .5 else vbytes(r, t), tb, v]
    if kind in ("pre", "post"): return [kind, r.choice("+-")]
    if kind == "fetch":
        return ["fetch", r.choice(["+", "-", "&", "|", "^"]), *((tb, vbytes(r, tb)) if (tb := r.choice([t, r.choice(INTS)])) else ())]
    if kind == "asg":
        if t[0] == "p":
            tb = r.choice([I8, I16, I32, I64]); return ["asg", r.choice("+-"), tb, vbytes(r, tb, True)]
        if t[0] == "f":
            tb = r.choice([t, F32, F64, I32, U8]); return ["asg", r.choice("+-*/"), tb, vbytes(r, tb, True)]
        op = r.choice(IOPS)
        if op in ("<<", ">>"):
            tb = r.choice([U8, I32, U64]); return ["asg", op, tb, i2w(r.randint(0, 8 * t[1] - 1))[:tb[1]]]
        tb = r.choice([t, r.choice(INTS), r.choice([F32, F64])])
        if tb[0] == "f": return (["asg", r.choice("+-*"), tb, fbytes(r.choice([0.5, 1.0, 2.5, -3.0]), tb[1])] if op in "+-*/" else ["asg", op, I32, i2w(r.randint(1, 9))[:4]])
        return ["asg", op, tb, vbytes(r, tb)]
def kinds(t):
    k = ["load", "store", "xchg", "cas", "cas", "asg", "asg", "pre", "post"]
    if t[0] == "i" and t != BOOL: k += ["fetch", "fetch"]
    return k
def effect(x, o):      # only for choosing expected values of compare-exchange; the specification decides
    return x

class Case:
    def __init__(self, r, t, nops, only=None, env=None):
        self.t = t
        sz = size(t)
        self.P = 8 + sz * r.randint(0, 7 // sz if sz < 8 else 0)
        self.x = vbytes(r, t, r.random() < .5)
        self.nb = [r.randint(0, 255) for _ in range(self.P + 8)]
        self.ops = [an_op(r, t, only or r.choice(kinds(t)), self.x) for _ in range(nops)]
        self.lv = [r.randrange(5) for _ in self.ops]
        self.bv = [r.randrange(3) for _ in self.ops]
        self.st = [r.randrange(3) for _ in self.ops]
        self.dq = r.randrange(3)
        self.env = env or []
        self.line = None
    def model(self):
        return dict(ty=self.t, x=self.x, nb=self.nb, thr=[self.ops] + ([self.env] if self.env else []), mode="all", rec=[])
    def text(self, k):
        t, T = self.t, "T_%d" % k
        q = ["_Atomic %s", "_Atomic(%s)", "%s _Atomic"][self.dq] % T
        o = ["typedef %s %s;" % (nm(t), T),
             "struct S_%d { unsigned char pre[%d]; %s x; unsigned char post[8]; };" % (k, self.P, q),
             "_Alignas(8) struct S_%d g_%d; struct S_%d *p_%d = &g_%d; %s *q_%d = &g_%d.x; int z_%d;" % (k, k, k, k, k, q, k, k, k),
             "%s res_%d[%d], exp_%d[%d]; _Bool rb_%d[%d];" % (T, k, len(self.ops), k, len(self.ops), k, len(self.ops)),
             "static struct S_%d *fp_%d(void) { return p_%d; }" % (k, k, k)]
        body, ini = [], []
        ini.append("static unsigned char iv[] = {%s}; setb(&g_%d, iv, sizeof iv);" % (", ".join(map(str, self.nb[:self.P] + self.x + self.nb[self.P:])), k))
        for i, op in enumerate(self.ops):
            L = ["g_%d.x" % k, "p_%d->x" % k, "*q_%d" % k, "q_%d[z_%d]" % (k, k), "fp_%d()->x" % k][self.lv[i]]
            A = "q_%d" % k if self.lv[i] == 2 else "&" + L
            if op[0] in ("store", "xchg", "cas", "asg", "fetch"):
                tb, v = op[-2], op[-1]
                B = "b_%d_%d" % (k, i)
                o.append("%s %s;" % (nm(tb), B))
                o.append("static %s f%s(void) { return %s; }" % (nm(tb), B, B))
                ini.append("{ static unsigned char bv[] = {%s}; setb(&%s, bv, sizeof bv); }" % (", ".join(map(str, v)), B))
                if self.bv[i] == 1: B = "f%s()" % B
            s, R = self.st[i], "res_%d[%d]" % (k, i)
            if op[0] == "load": e = "%s = %s;" % (R, [L, "atomic_load(%s)" % A, "atomic_load_explicit(%s, memory_order_acquire)" % A][s])
            elif op[0] == "store": e = "%s = %s;" % (R, ["(%s = %s)" % (L, B), "atomic_store(%s, %s)" % (A, B), "atomic_store_explicit(%s, %s, memory_order_release)" % (A, B)][s])
            elif op[0] == "xchg": e = "%s = %s;" % (R, ["atomic_exchange(%s, %s)" % (A, B), "__builtin_atomic_exchange(%s, %s)" % (A, B), "atomic_exchange_explicit(%s, %s, memory_order_seq_cst)" % (A, B)][s])
            elif op[0] == "cas":
                ini.append("{ static unsigned char ev[] = {%s}; setb(&exp_%d[%d], ev, sizeof ev); }" % (", ".join(map(str, op[1])), k, i))
                e = "rb_%d[%d] = %s(%s, &exp_%d[%d], %s);" % (k, i, ["atomic_compare_exchange_strong", "atomic_compare_exchange_weak", "__builtin_compare_and_swap"][s], A, k, i, B)
            elif op[0] == "asg": e = "%s = (%s %s= %s);" % (R, L, op[1], B)
            elif op[0] == "pre": e = "%s = %s%s;" % (R, op[1] * 2, L)
            elif op[0] == "post": e = "%s = (%s)%s;" % (R, L, op[1] * 2)
            elif op[0] == "fetch":
                f = {"+": "add", "-": "sub", "&": "and", "|": "or", "^": "xor"}[op[1]]
                e = "%s = %s;" % (R, ["atomic_fetch_%s(%s, %s)" % (f, A, B), "atomic_fetch_%s(%s, %s)" % (f, A, B), "atomic_fetch_%s_explicit(%s, %s, memory_order_relaxed)" % (f, A, B)][s])
            body.append("\t" + e)
        o.append("void init_%d(void)\n{\n\t%s\n}" % (k, "\n\t".join(ini)))
        o.append("void op_%d(void)\n{\n%s\n}" % (k, "\n".join(body)))
        return "\n".join(o)
    # what a run shows: object, neighbours, result of every operation
    def shown(self, g, res, rb, exp):
        sz = size(self.t)
        out = []
        for i, op in enumerate(self.ops):
            if op[0] == "cas": out.append([[rb[i]], list(exp[i*sz:i*sz+sz])])
            else: out.append([list(res[i*sz:i*sz+sz])])
        return [list(g[self.P:self.P+sz]), list(g[:self.P]) + list(g[self.P+sz:self.P+sz+8]), out]

HEAD = """#include <stdatomic.h>
void setb(void *, unsigned char *, unsigned long); void dumpb(void *, unsigned long); void done(void); void nl(void);
struct Q24 { long a[3]; };
"""
RT = r"""
#include <stdio.h>
#include <string.h>
void setb(void *p, unsigned char *q, unsigned long n) { memcpy(p, q, n); }
void dumpb(void *p, unsigned long n) { unsigned char *q = p; while (n--) printf("%02x", *q++); putchar(' '); }
void nl(void) { putchar('\n'); }
__attribute__((noinline, aligned(16))) void done(void) { asm volatile("nop\n\tnop" ::: "memory"); }
"""
def seq_text(cases):
    o = [HEAD] + [c.text(k) for k, c in enumerate(cases)] + ["int main(void)\n{"]
    for k in range(len(cases)):
        o.append("\tinit_%d(); op_%d(); dumpb(&g_%d, sizeof g_%d); dumpb(res_%d, sizeof res_%d); dumpb(rb_%d, sizeof rb_%d); dumpb(exp_%d, sizeof exp_%d); nl();" % ((k,) * 10))
    return "\n".join(o + ["\treturn 0;\n}\n"])
def step_text(cases):
    o = [HEAD, "volatile int sel = -1;"] + [c.text(k) for k, c in enumerate(cases)] + ["int main(void)\n{\n\tfor (;;) {\n\t\tdone();\n\t\tswitch (sel) {"]
    for k in range(len(cases)): o.append("\t\tcase %d: init_%d(); op_%d(); break;" % (k, k, k))
    return "\n".join(o + ["\t\t}\n\t}\n}\n"])

# ---- real threads
class Hist:
    def __init__(self, r, t, nthr, nops):
        self.t = t
        self.x = vbytes(r, t, True)
        ks = [k for k in kinds(t) if k not in ("load", "store", "asg")] + ["asg"]
        self.kinds = []
        self.thr = []
        # a few forms of operation per history, so that the code is small
        forms = [an_op(r, t, k, self.x) for k in ks + ["load", "store"]]
        forms = [f for f in forms if not (f[0] == "asg" and (f[1] in ("/", "%", "*", "<<", ">>") or f[2][0] == "f"))]
        if t[0] == "i" and t[2] and t[1] >= 4:      # no signed overflow
            forms = [["asg", r.choice("&|^"), t, vbytes(r, t)] if f[0] == "asg" else f for f in forms]
        if t[0] == "f": forms = [["asg", r.choice("+-"), t, fbytes(0.5, t[1])] if f[0] == "asg" else f for f in forms]
        self.forms = forms
        if t[0] == "i" and t[2] and t[1] >= 4:
            self.forms = [f if f[0] not in ("store", "xchg", "cas", "fetch") or f[0] == "fetch" else f for f in forms]
        self.thr = [[r.randrange(len(forms)) for _ in range(nops)] for _ in range(nthr)]
    def text(self):
        T, n, m = nm(self.t), len(self.thr), len(self.thr[0])
        o = [HEAD.replace("void done(void); ", ""), "typedef %s T; _Atomic T x; T res[%d][%d], ex[%d][%d]; _Bool rb[%d][%d];" % (T, n, m, n, m, n, m),
             "unsigned char sched[%d][%d] = {%s};" % (n, m, ", ".join("{%s}" % ", ".join(map(str, q)) for q in self.thr)),
             "int nthr = %d;" % n]
        ini = ["static unsigned char iv[] = {%s}; setb(&x, iv, sizeof iv);" % ", ".join(map(str, self.x))]
        cs = []
        for i, f in enumerate(self.forms):
            if f[0] in ("store", "xchg", "cas", "asg", "fetch"):
                o.append("%s b_%d;" % (nm(f[-2]), i))
                ini.append("{ static unsigned char bv[] = {%s}; setb(&b_%d, bv, sizeof bv); }" % (", ".join(map(str, f[-1])), i))
            if f[0] == "cas":
                o.append("T e_%d;" % i)
                ini.append("{ static unsigned char bv[] = {%s}; setb(&e_%d, bv, sizeof bv); }" % (", ".join(map(str, f[1])), i))
            R = "res[t][j]"
            e = {"load": "%s = x;" % R, "store": "%s = (x = b_%d);" % (R, i), "xchg": "%s = atomic_exchange(&x, b_%d);" % (R, i),
                 "cas": "ex[t][j] = e_%d; rb[t][j] = atomic_compare_exchange_strong(&x, &ex[t][j], b_%d);" % (i, i),
                 "asg": "%s = (x %s= b_%d);" % (R, f[1] if len(f) > 1 else "", i),
                 "pre": "%s = %sx;" % (R, (f[1] if len(f) > 1 else "+") * 2) if f[0] == "pre" else "", "post": "%s = x%s;" % (R, f[1] * 2) if f[0] == "post" else "",
                 "fetch": "%s = atomic_fetch_%s(&x, b_%d);" % (R, {"+": "add", "-": "sub", "&": "and", "|": "or", "^": "xor"}.get(f[1] if f[0] == "fetch" else "+"), i)}[f[0]]
            cs.append("\t\tcase %d: %s break;" % (i, e))
        o.append("void init(void)\n{\n\t%s\n}" % "\n\t".join(ini))
        o.append("void work(int t)\n{\n\tfor (int j = 0; j < %d; j++)\n\t\tswitch (sched[t][j]) {\n%s\n\t\t}\n}" % (m, "\n".join(cs)))
        o.append("void report(void)\n{\n\tdumpb(&x, sizeof x); dumpb(res, sizeof res); dumpb(rb, sizeof rb); dumpb(ex, sizeof ex); nl();\n}\n")
        return "\n".join(o)
    def model(self, res, rb, ex):
        sz, m = size(self.t), len(self.thr[0])
        rec = []
        for i, q in enumerate(self.thr):
            l = []
            for j, f in enumerate(q):
                p = (i * m + j) * sz
                l.append([[rb[i*m+j]], list(ex[p:p+sz])] if self.forms[f][0] == "cas" else [list(res[p:p+sz])])
            rec.append(l)
        return dict(ty=self.t, x=self.x, nb=[], thr=[[self.forms[f] for f in q] for q in self.thr], mode="trace", rec=rec)
HRT = RT + r"""
#include <pthread.h>
#define ROUNDS 40
extern int nthr; void init(void); void work(int); void report(void);
static int ready[ROUNDS];
static pthread_barrier_t bar;
static void *thr(void *p) {
	for (int r = 0; r < ROUNDS; r++) {
		if (!p) init();
		pthread_barrier_wait(&bar);
		__atomic_fetch_add(&ready[r], 1, __ATOMIC_SEQ_CST);
		while (__atomic_load_n(&ready[r], __ATOMIC_SEQ_CST) < nthr) ;
		work((int)(long)p);
		pthread_barrier_wait(&bar);
		if (!p) report();
	}
	return 0;
}
int main(void) {
	pthread_t t[8];
	pthread_barrier_init(&bar, 0, nthr);
	for (long i = 1; i < nthr; i++) pthread_create(&t[i], 0, thr, (void *)i);
	thr(0);
	for (int i = 1; i < nthr; i++) pthread_join(t[i], 0);
	return 0;
}
"""

# ---- thread-local objects
class Tls:
    def __init__(self, r, nvars=6, nthr=3, steps=60):
        self.v = []
        for i in range(nvars):
            t = r.choice([I8, I16, I32, I64, F64])
            n = r.choice([1, 1, 2, 3, 7, r.choice([200, 700])])
            kind = r.choice(["scalar"] if n == 1 and r.random() < .7 else ["array", "struct"])
            link = r.choice(["extern", "extern", "static", "fnstatic", "gcc"])
            init = [r.choice([0, r.randint(-100, 100)]) if j < 8 else 0 for j in range(n)]
            if r.random() < .3: init = [0] * n
            self.v.append(dict(t=t, n=n, kind=kind, link=link, init=init, kw=r.choice(["_Thread_local", "__thread"]), order=r.randrange(2),
                               al=r.choice([0, 0, 0, 16, 64]), explicit=r.random() < .5))
        self.n, self.slots = nthr, 3
        self.sched = []
        live, pub, use = [1], {}, []
        for _ in range(steps):
            t = r.choice(live)
            k = r.random()
            if len(live) < nthr and k < .1:
                u = len(live) + 1; self.sched.append([t, "start", u]); live.append(u); use.append(0)
                for v in range(1, nvars + 1):
                    if r.random() < .6: self.sched.append([u, "get", v, r.randint(1, self.v[v-1]["n"])]); use.append(r.choice(self.paths(v)))
                continue
            v = r.randint(1, nvars)
            i = r.randint(1, self.v[v-1]["n"])
            if k < .35: s = [t, "get", v, i]
            elif k < .55: s = [t, "set", v, i, r.randint(-50, 50)]
            elif k < .65: s = [t, "add", v, i, r.randint(-5, 5)]
            elif k < .75 or not pub: q = r.randint(1, self.slots); s = [t, "pub", v, q]; pub[q] = v
            elif k < .85: q = r.choice(list(pub)); v = pub[q]; s = [t, "poke", q, r.randint(1, self.v[v-1]["n"]), r.randint(-50, 50)]
            elif k < .95: q = r.choice(list(pub)); v = pub[q]; s = [t, "peek", q, r.randint(1, self.v[v-1]["n"])]
            else:
                q = r.choice(list(pub)); v = pub[q]; s = [t, "same", v, q]
            self.sched.append(s); use.append(r.choice(self.paths(v)))
        for t in live:
            for v in range(1, nvars + 1): self.sched.append([t, "get", v, r.randint(1, self.v[v-1]["n"])]); use.append(r.choice(self.paths(v)))
        self.use = use
        # bytes stay bytes
        for s in self.sched: pass
    def paths(self, v): return [0, 1, 2] if self.v[v-1]["link"] in ("extern", "gcc") else [0]
    def model(self): return dict(n=self.n, slots=self.slots, init=[v["init"] for v in self.v], sched=self.sched)
    def decl(self, i, init):
        v = self.v[i]
        T = NAME[json.dumps(v["t"])]
        vals = "{%s}" % ", ".join(map(str, v["init"][:max(1, max([j + 1 for j, x in enumerate(v["init"]) if x], default=1))]))
        d = {"scalar": "%s v%d", "array": "%s v%d[%d]" % ("%s", 0, v["n"]), "struct": "struct { char c; %s m[%d]; } v%d"}[v["kind"]]
        if v["kind"] == "scalar": d = "%s v%d" % (T, i); val = str(v["init"][0])
        elif v["kind"] == "array": d = "%s v%d[%d]" % (T, i, v["n"]); val = vals
        else: d = "struct s%d v%d" % (i, i); val = "{7, %s}" % vals
        zero = not any(v["init"])
        return d + (" = " + val if init and not (zero and not v["explicit"]) else "")
    def lv(self, i, e): return {"scalar": "v%d" % i, "array": "v%d[%s]" % (i, e), "struct": "v%d.m[%s]" % (i, e)}[self.v[i]["kind"]]
    def acc(self, i, u):
        T = NAME[json.dumps(self.v[i]["t"])]
        head = ""
        if self.v[i]["link"] == "fnstatic": head = "static %s %s; " % (self.v[i]["kw"], self.decl(i, True))
        if self.v[i]["link"] == "fnstatic":       # one function, one object
            return ("%s *loc%d(void) { %sreturn &%s; }\n" % (T, i, head, self.lv(i, "0")) +
                    "long get%d_%d(int i) { return loc%d()[i]; }\nvoid set%d_%d(int i, long x) { loc%d()[i] = x; }\nvoid add%d_%d(int i, long x) { loc%d()[i] += x; }\nvoid *adr%d_%d(void) { return loc%d(); }\n" % (i, u, i, i, u, i, i, u, i, i, u, i))
        e = self.lv(i, "i")
        return ("long get%d_%d(int i) { return %s; }\nvoid set%d_%d(int i, long x) { %s = x; }\nvoid add%d_%d(int i, long x) { %s += x; }\nvoid *adr%d_%d(void) { return &%s; }\n"
                % (i, u, e, i, u, e, i, u, e, i, u, self.lv(i, "0")))
    def units(self):
        """unit 0 (toycc), unit 1 (toycc), unit 2 (gcc, with the scheduler)"""
        U = ["", "", "#include <stdio.h>\n#include <pthread.h>\n"]
        for i, v in enumerate(self.v):
            T = NAME[json.dumps(v["t"])]
            for u in range(3):
                if v["kind"] == "struct" and (u == 0 or v["link"] in ("extern", "gcc")): U[u] += "struct s%d { char c; %s m[%d]; };\n" % (i, T, v["n"])
                al = "_Alignas(%d) " % v["al"] if v["al"] else ""
                if v["link"] in ("extern", "gcc"):
                    home = 0 if v["link"] == "extern" else 2
                    if u == home:
                        if v["order"]: U[u] += "extern %s %s;\n" % (v["kw"], self.decl(i, False))
                        U[u] += "%s%s %s;\n" % (al, v["kw"], self.decl(i, True))
                    else: U[u] += "extern %s %s;\n" % (v["kw"], self.decl(i, False))
                    U[u] += self.acc(i, u)
                elif u == 0:
                    if v["link"] == "static": U[0] += "static %s%s %s;\n" % (al, v["kw"], self.decl(i, True))
                    U[0] += self.acc(i, 0)
        g = U[2]
        for i, v in enumerate(self.v):
            for u in self.paths(i + 1):
                if u != 2: g += "long get%d_%d(int); void set%d_%d(int, long); void add%d_%d(int, long); void *adr%d_%d(void);\n" % ((i, u) * 4)
        g += "static int turn; static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER; static pthread_cond_t cv = PTHREAD_COND_INITIALIZER;\nstatic void *slot[4]; static pthread_t th[8];\nstatic void *run(void *);\n"
        g += "static void step(int k) {\n\tswitch (k) {\n"
        for k, (s, u) in enumerate(zip(self.sched, self.use)):
            op = s[1]
            if op == "start": e = "pthread_create(&th[%d], 0, run, (void *)%dL);" % (s[2], s[2])
            elif op == "get": e = 'printf("%%ld\\n", get%d_%d(%d));' % (s[2] - 1, u, s[3] - 1)
            elif op == "set": e = "set%d_%d(%d, %d);" % (s[2] - 1, u, s[3] - 1, s[4])
            elif op == "add": e = "add%d_%d(%d, %d);" % (s[2] - 1, u, s[3] - 1, s[4])
            elif op == "pub": e = "slot[%d] = adr%d_%d();" % (s[3], s[2] - 1, u); T = None
            elif op == "same": e = 'printf("%%d\\n", slot[%d] == adr%d_%d());' % (s[3], s[2] - 1, u)
            elif op == "poke": e = "((%s *)slot[%d])[%d] = %d;" % (NAME[json.dumps(self.v[self.at(k, s[2]) - 1]["t"])], s[2], s[3] - 1, s[4])
            else: e = 'printf("%%ld\\n", (long)((%s *)slot[%d])[%d]);' % (NAME[json.dumps(self.v[self.at(k, s[2]) - 1]["t"])], s[2], s[3] - 1)
            g += "\tcase %d: %s break;\n" % (k, e)
        g += "\t}\n}\nstatic const char who[] = {%s};\n" % ", ".join(str(s[0]) for s in self.sched)
        g += """static void *run(void *p) {
	long me = (long)p;
	for (;;) {
		pthread_mutex_lock(&mu);
		while (turn < %d && who[turn] != me) pthread_cond_wait(&cv, &mu);
		if (turn >= %d) { pthread_mutex_unlock(&mu); return 0; }
		step(turn++);
		pthread_cond_broadcast(&cv);
		pthread_mutex_unlock(&mu);
	}
}
int main(void) { run((void *)1L); for (int i = 2; i < 8; i++) if (th[i]) pthread_join(th[i], 0); return 0; }
""" % (len(self.sched), len(self.sched))
        return U[0], U[1], g
    def at(self, k, slot):
        for s in reversed(self.sched[:k]):
            if s[1] == "pub" and s[3] == slot: return s[2]
