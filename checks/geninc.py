"""Random directory trees, search paths and inclusion graphs for C10."""
from pp import *

RANK = ["a.h", "b.h", "sub/a.h", "c.h", "sub/c.h", "d.h", "sub/d.h", "e.h", "std.h"]
DIRS = ["w", "w/inc1", "w/inc2", "w/inc3", "tc/include", "w/aft1", "w/aft2"]
MAC = ["MODE", "X", "Y"]

class G:
    def __init__(self, rng):
        self.r = rng; self.w = w = World(); w.rng = random.Random(rng.random()); w.splice = False; w.tool = True
        self.n = 0
        w.base = "w/main.c"
        inc = rng.sample(DIRS[1:4], rng.randint(0, 3)); aft = rng.sample(DIRS[5:7], rng.choice([0, 0, 1, 2]))
        opts = []
        for d in inc: opts.append(("I", rng.choice([["-I" + d], ["-I", d], ["-I./" + d], ["-I" + d + "/"], ["-I@ROOT@/" + d]])))
        for d in aft: opts.append(("A", ["-idirafter", rng.choice([d, "@ROOT@/" + d])]))
        i = [o for k, o in opts if k == "I"]; a = [o for k, o in opts if k == "A"]
        while i or a:               # any interleaving of the two kinds of options
            q = rng.choice([x for x in (i, a) if x])
            w.args += q.pop(0)
        w.dirs = [d.split("/") for d in inc + ["tc/include"] + aft]
        self.live = ["w"] + inc + ["tc/include"] + aft + (["w/inc3"] if rng.random() < .2 and "w/inc3" not in inc else [])
        w.mkdirs = [d.split("/") + ["sub"] for d in DIRS] + [d.split("/") for d in DIRS]
        self.have = {}              # name -> directories
        for h in RANK:
            ds = rng.sample(self.live, min(len(self.live), rng.choice([1, 1, 1, 2, 2, 3, 4])))
            srch = [d for d in self.live if d.split("/") in w.dirs]
            if rng.random() < .95 and not set(ds) & set(srch): ds.append(rng.choice(srch))
            self.have[h] = ds
        if rng.random() < .2: self.have[rng.choice(RANK)].append(".")   # the working directory is the last resort
    def mark(self, what=""):
        self.n += 1
        r = self.r
        return "t%d %s %s;" % (self.n, what, r.choice(["", "", "", "MODE", "X", "__LINE__"]))
    def nextable(self, d, h):
        order = [x for x in self.live if x.split("/") in self.w.dirs]
        return [x for x in (order[order.index(d)+1:] if d in order else order) if x in self.have[h]] or self.r.random() < .03
    def inc(self, here, rank, nextok):
        """the lines of one inclusion from directory `here` by a file of the given rank"""
        r, w = self.r, self.w
        x = r.random()
        cand = [h for i, h in enumerate(RANK) if i > rank]
        me = RANK[rank] if rank >= 0 else None
        top = here[:-4] if here.endswith("/sub") else here
        if nextok and x < .4 and rank < 7 and top != ".":
            n = me if r.random() < .8 else r.choice(cand or [me])
            if self.nextable(top, n): return [self.line("include_next", r.choice(["<%s>", '"%s"']) % n)]
        if not cand: return []
        h = r.choice(cand)
        if r.random() < .005: h = "missing.h"
        x = r.random()
        if x < .38: s = '"%s"' % h
        elif x < .70: s = "<%s>" % h
        elif x < .80:
            s = '"%s%s"' % (r.choice(["./", "sub/../" if not here.endswith("sub") else "./", "././"]), h)
        elif x < .9 and h in self.have:
            d = [q for q in self.have[h] if q.startswith("w/")]
            if not d or not (here.startswith("w/") and here.count("/") == 1): s = '"%s"' % h
            else: s = '"../%s/%s"' % (r.choice(d)[2:], h)
        elif x < .95 and h in RANK[7:] and self.have[h][0] != ".": s = '"@ROOT@/%s/%s"' % (self.have[h][0], h)
        else: s = "<./%s>" % h
        if r.random() < .25 and "@" not in s:
            self.w.header(s)
            nm = "INC%d" % r.randint(1, 3)
            L = ["#undef " + nm, "#define %s %s" % (nm, s)]
            if r.random() < .3: L = ["#undef " + nm, "#define W(x) x", "#define %s W(%s)" % (nm, s)]
            return [T(q) for q in L] + [T("#include " + nm)]
        return [self.line("include", s)]
    def line(self, d, s):
        return [["p", "#", 0], ["i", d, int(self.r.random() < .2)], self.w.header(s)]
    def some(self, here, rank, k=None):
        r = self.r; out = []
        for _ in range(r.choice([0, 1, 1, 2, 2, 3]) if k is None else k):
            x = r.random()
            if x < .45: out += self.inc(here, rank, rank >= 0)
            elif x < .55: out.append(T("#define %s %d" % (r.choice(MAC), r.randint(0, 9))))
            elif x < .60: out.append(T("#undef " + r.choice(MAC)))
            elif x < .63: out.append(T(r.choice(["#line %d", '#line %d "zz.c"', '#line %d "w/inc1/a.h"']) % r.randint(1, 99)))
            elif x < .72: out += [T("#ifdef " + r.choice(MAC)), T(self.mark("d")), T("#else")] + self.inc(here, rank, rank >= 0) + [T("#endif")]
            else: out.append(T(self.mark(here.replace("/", "_").replace(".", "cwd"))))
        return out
    def header(self, d, h):
        r = self.r; rank = RANK.index(h); here = d + "/sub" if h.startswith("sub/") else d
        g = "G_" + re.sub(r"\W", "_", h) + ("" if r.random() < .3 else "_" + re.sub(r"\W", "_", d))
        S = lambda k=None: self.some(here, rank, k)
        M = lambda: [T(self.mark(re.sub(r"\W", "_", d + "_" + h)))]
        x = r.random()
        if x < .25: L = M() + S()
        elif x < .37: L = [T("#pragma once")] + M() + S()
        elif x < .40: L = M() + [T("#pragma once")] + S()
        elif x < .43: L = M() + [T("#ifdef " + r.choice(MAC)), T("#pragma once"), T("#endif")] + S()
        elif x < .46: L = M() + [T("#if 0"), T("#pragma once"), T("#endif")] + S()
        else:
            gd = [T("#ifndef " + g), T("#define " + g + r.choice(["", " 1", "(x) x"]))]
            if r.random() < .1: gd = [T("#if !defined(%s)" % g), T("#define " + g)]
            L = gd + M() + S()
            y = r.random()
            if y < .25: pass
            elif y < .4: L += [T("#else")] + M() + S()
            elif y < .48: L += [T("#elif " + r.choice(["1", "0", "defined X"]))] + M()
            elif y < .58: L += [T("#if " + r.choice(["0", "1", "defined MODE"]))] + M() + [T("#else")] + M() + [T("#endif")]
            elif y < .66: L += [T("#undef " + g)] + M()
            elif y < .74: L += [T("#endif")] + M() + [T(r.choice(["#ifndef Z", "#ifndef " + g, "#ifdef X", "#if 1"]))] + M()
            elif y < .8: L = M() + L
            elif y < .88: L[1] = T("#define " + r.choice(["OTHER", g + "_"]))
            L += [T("#endif" + r.choice(["", "", "", " " + g]))]
            if r.random() < .2: L += M()
            if r.random() < .1: L += [T("#")]
            if r.random() < .1: L = [T("#pragma once")] + L
        return L
    def build(self):
        r, w = self.r, self.w
        body = []
        for _ in range(r.randint(3, 9)):
            x = r.random()
            body += self.some("w", -1, 2)
            if x < .2:
                h = r.choice(RANK); d = r.choice(self.have[h]); g = re.sub(r"\W", "_", h)
                body.append(T("#undef G_" + r.choice([g, g + "_" + re.sub(r"\W", "_", d)])))
            if x > .8 and body: body += body[-2:] if not any(t[0][1:2] == ["#"] and t[1][1] in ("if", "ifdef", "else", "endif", "ifndef") for t in body[-2:] if t) else []
        main = w.file("w/main.c", body + [T("fin")])
        for h in RANK:
            for d in self.have[h]:
                w.file((d + "/" if d != "." else "") + h, self.header(d, h))
        if r.random() < .25:        # a directory is no candidate
            h = r.choice(RANK); free = [d for d in self.live if d not in self.have[h]]
            if free: w.mkdirs.append((r.choice(free) + "/" + h).split("/"))
        for i in range(r.choice([0, 0, 0, 1, 2])):
            nm = "p%d.h" % i
            for d in r.sample(["."] + self.live, r.choice([1, 1, 2])):
                L = [T(self.mark("pre"))] + [T(r.choice(["#pragma once", "#define MODE 7", "#ifndef GP\n", "#define X p"]).strip())][:1]
                if L[1][1][1] == "ifndef": L += [T("#define GP"), T(self.mark("gp")), T("#endif")]
                w.file((d + "/" if d != "." else "") + nm, L)
            p = r.choice([nm, nm, "./" + nm, "w/" + nm])
            w.pre.append([c for c in p.split("/") if c != "."]); w.args += ["-include", p]
            if r.random() < .5: w.files[0]["raw"].insert(r.randint(0, 1), self.line("include", r.choice(['"%s"', "<%s>"]) % nm))
        return w
def world(rng): return G(rng).build()
