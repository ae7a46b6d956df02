"""Preprocessor worlds: lexer, rendering, replay of Preproc.tla's behaviours."""
import os, re, shutil
from lib import *

PUNCTS = ["<<=", ">>=", "...", "==", "!=", "<=", ">=", "->", "+=", "-=", "*=", "/=", "++", "--", "%=", "&=", "|=", "^=", "&&", "||", "<<", ">>", "##"]
TOKEN = re.compile(r"""(?P<sp>[ \t\r\f\v]+|/\*.*?\*/|//[^\n]*)|(?P<nl>\n)|(?P<n>\.?[0-9](?:[eEpP][+-]|[0-9A-Za-z_.])*)|(?P<s>(?:u8|u|U|L)?"(?:\\.|[^"\\\n])*")|(?P<c>[uUL]?'(?:\\.|[^'\\\n])*')|(?P<i>[A-Za-z_\x80-\U0010ffff][A-Za-z_0-9\x80-\U0010ffff]*)|(?P<p>"""
    + "|".join(re.escape(p) for p in PUNCTS) + r"""|[!-/:-@\[-`{-~])""", re.S)

def lex(text):
    """list of (kind, text, preceded by space, at line start)"""
    out, i, sp, bol = [], 0, 0, 1
    while i < len(text):
        m = TOKEN.match(text, i)
        if not m: raise ValueError("cannot lex %r" % text[i:i+20])
        k = m.lastgroup
        if k == "sp": sp = 1
        elif k == "nl": bol, sp = 1, 0
        else:
            out.append((k, m.group(), sp, bol)); sp = bol = 0
        i = m.end()
    return out
def texts(s): return [t[1] for t in lex(s)]

def T(s, sp=None):
    """tokens of the text s as [kind, text, sp]"""
    r = [[k, t, x] for k, t, x, _ in lex(s)]
    if sp is not None and r: r[0][2] = sp
    return r

def fixsp(ts):
    """white space wherever two tokens would merge"""
    for a, b in zip(ts, ts[1:]):
        if not b[2]:
            try: ok = texts(a[1] + b[1]) == [a[1], b[1]] and a[1] + b[1] not in ("//", "/*", "<:", "<%", "%:", ":>", "%>") and not (a[1] in ("<", "%", ":") and b[1][0] in ":%>") and (a[0], b[0]) != ("p", "p") or (a[1] in "([{,;" or b[1] in ")]},;(" )
            except ValueError: ok = False
            if not ok or (a[1] in ("<","%",":") and b[1][:1] in (":","%",">")): b[2] = 1
    return ts

def spell(ts, rng=None, splice=True):
    o = ""
    for i, t in enumerate(ts):
        if t[2] and (i or rng is None):
            o += " " if o[-1:] == "/" else rng.choice([" ", " ", " ", "  ", "\t", " /* c */", "/**/ "] + [" \\\n"] * splice) if rng else " "
        o += t[1]
    return o

class World:
    def __init__(self):
        self.files, self.dirs, self.hdr, self.cmd, self.pre = [], [], [], [], []
        self.base = "main.c"
        self.key = None
        self.syn = 0            # 1: the result is judged as a C program
        self.args = []
        self.rng = None
        self.splice = True      # white space may hold a line splice
        self.mkdirs = []        # directories to create besides
        self.tool = False       # run a copy of the compiler at tc/toycc, so that tc/include is its header directory
    def file(self, path, lines):
        """lines: list of token lists; a logical line may be spelled over several physical ones"""
        f = dict(path=[c for c in path.split("/") if c not in ("", ".")], spelled=path, raw=lines)
        self.files.append(f)
        return len(self.files)
    def header(self, s, ab=False):
        """spelling "..." or <...>; "@ROOT@/..." is an absolute path"""
        if all(h["s"] != s for h in self.hdr):
            if s[1:].startswith("@ROOT@/"): self.hdr.append(dict(s=s, q=2, p=[c for c in s[8:-1].split("/")]))
            else: self.hdr.append(dict(s=s, q=1 if s[0] == '"' else 0, p=[c for c in s[1:-1].split("/")]))
        return ["h", s, 1]
    def layout(self, rng=None):
        for f in self.files:
            txt, ln, L = "", 1, []
            for ts in f["raw"]:
                s = ts if isinstance(ts, str) else spell(fixsp(ts), rng, self.splice)
                toks = [] if isinstance(ts, str) else [[t[0], t[1], t[2]] for t in ts]
                L.append(dict(n=ln, m=ln + s.count("\n"), t=toks))
                txt += s + "\n"
                ln += s.count("\n") + 1
            f["text"], f["lines"] = txt, L
    def model(self):
        return dict(files=[dict(path=f["path"], lines=f["lines"]) for f in self.files], dirs=self.dirs, hdr=self.hdr,
                    cmd=self.cmd, pre=self.pre, base=self.base, syn=self.syn)
    def write(self, d):
        for f in self.files:
            p = os.path.join(d, f["spelled"]); os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "w") as h: h.write(f["text"].replace("@ROOT@", d))
        for x in self.dirs + self.mkdirs: os.makedirs(os.path.join(d, *x), exist_ok=True)
    def show(self):
        return "".join("==== %s\n%s" % (f["spelled"], f["text"]) for f in self.files)

DISCARD = {"ambiguous", "fuel", "too long", "too deep", "shift", "ovf", "unterminated invocation"}

def rejection(r, why, places, d):
    """a rejected input: a positive status and a diagnostic at one of the places; warnings may come first"""
    if r.rc <= 0: return "accepted (rc %d), the specification rejects it: %s" % (r.rc, why)
    if os.environ.get("VP_SPEC_CHECK"): named = {m + ":" for m in re.findall(r"(?m)^(\S+?:\d+)(?=:\d+: |: )", r.err)}
    else: named = set(re.findall(r"(?m)^(\S+?:\d+:)$", r.err))
    if not places or os.environ.get("VP_SPEC_CHECK"): return None
    named = {os.path.normpath(n.replace(d + "/", "")) for n in named}
    if not named: return "rejected (%s) without a diagnostic that names file and line: %r" % (why, r.err[-300:])
    if not named & places: return "rejected (%s), but the diagnostic names %s instead of %s" % (why, sorted(named), sorted(places))

def run_worlds(ck, label, worlds, errors=False):
    """errors: the outcomes of rejected worlds to judge too, True for all"""
    for w in worlds: w.layout(w.rng)
    res = ck.tlc("Preproc", batch=[w.model() for w in worlds], name="Preproc/" + label)
    seen, places = {}, {}
    for r in res:
        k, st, out, opened, at = json.loads(r)
        seen[k] = (st, out, opened)
        places[k] = {"%s:%d:" % tuple(a) for a in at}
    if len(seen) != len(worlds):
        raise Broken("model gave %d results for %d worlds" % (len(seen), len(worlds)))
    stats = {}
    for st, _, _ in seen.values(): stats[st] = stats.get(st, 0) + 1
    def judged(st): return st == "done" or (st not in DISCARD if errors is True else st in (errors or ()))
    todo = [k for k in sorted(seen) if judged(seen[k][0])]
    def do(k):
        w, (st, out, _) = worlds[k-1], seen[k]
        d = ck.path("%s/%d/x" % (label, k)); d = os.path.dirname(d)
        w.write(d)
        if os.environ.get("VP_SPEC_CHECK"):
            r = run([XGCC, "-E", "-P", "-w", "-undef", "-nostdinc", "-ftrack-macro-expansion=0", *[a.replace("@ROOT@", d) for a in w.args], *(["-isystem", "tc/include"] if w.tool else []), w.base], cwd=d)
            r.out = re.sub(r"(?m)^#pragma.*\n", "", r.out)
        else:
            tool = ck.toycc
            if w.tool:
                os.makedirs(d + "/tc/include", exist_ok=True); os.link(ck.toycc, d + "/tc/toycc"); tool = "./tc/toycc"
            r = run([tool, "-E", *[a.replace("@ROOT@", d) for a in w.args], w.base], cwd=d, env=toycc_env(), timeout=10)
        shutil.rmtree(d, ignore_errors=True)
        if st != "done":
            return rejection(r, st, places[k], d)
        if r.rc: return "toycc -E failed (rc %d): %s" % (r.rc, r.err[-400:])
        try: got = texts(r.out)
        except ValueError as e: return "output does not lex: %s" % e
        if got != out:
            for i in range(max(len(got), len(out))):
                a = got[i] if i < len(got) else "<end>"; b = out[i] if i < len(out) else "<end>"
                if a != b: return "token %d is %s, the specification says %s\ngot:  %s\nwant: %s" % (i+1, a, b, " ".join(got[max(0,i-8):i+8]), " ".join(out[max(0,i-8):i+8]))
    bad = 0
    for k, why in zip(todo, pmap(do, todo)):
        if why:
            bad += 1
            w = worlds[k-1]
            ck.violation("%s:%s" % (label, w.key or k), "%s world %s: %s" % (label, w.key or k, why),
                         dict({f["spelled"]: f["text"] for f in w.files}, **{"cmd.txt": " ".join(["toycc -E"] + w.args + [w.base]), "expected.txt": " ".join(seen[k][1])}), w.show())
    ck.traces += len(todo)
    ck.extra.setdefault("worlds", {})[label] = dict(generated=len(worlds), judged=len(todo), outcomes=stats, tokens=sum(len(v[1]) for v in seen.values()))
    if todo:
        k = todo[len(todo)//2]
        ck.sample(dict(world=worlds[k-1].show()[:1200], expected=" ".join(seen[k][1])[:400]))
    return seen
