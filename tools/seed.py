#!/usr/bin/env python3
"""Make and confirm planted bugs.
  seed.py add DEF.py ...     DEF.py defines ID, PROP, NEEDS, BREAKS, EDITS=[(file, old, new)], and C (text of t.c) or DEMO (+FILES)
  seed.py check [ID ...]     apply each planted bug to a scratch copy and run its property's check there
"""
import glob, json, os, shutil, subprocess, sys, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = V + "/seeded"
DEMO_C = """#!/bin/bash
# compiles t.c with the compiler under test and runs it
d=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d) || exit 2
trap 'rm -rf "$w"' EXIT
cc=$PWD/output/toycc
cd "$w" || exit 2
"$cc" -c "$d/t.c" -o t.o || exit 1
riscv64-linux-gnu-gcc -static t.o -o t -lpthread || exit 1
timeout 60 qemu-riscv64 ./t
"""
def sh(c, cwd, **k): return subprocess.run(c, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)
def copy(d):
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree("/repo", d, symlinks=True)
def scripts(d):
    os.makedirs(d + ".s", exist_ok=True)
    for f in ("build.sh", "test.sh"):
        t = open("/opt/vp/" + f).read().replace("/opt/vp/build.sh", d + ".s/build.sh").replace("cd /repo", "cd " + d)
        assert "/repo " not in t.replace(d, ""), f
        open(d + ".s/" + f, "w").write(t)
def add(path):
    g = {}
    exec(open(path).read(), g)
    i = g["ID"]
    d = "/tmp/seed-%s" % i
    copy(d); scripts(d)
    out = S + "/" + i
    try:
        for f, a, b in g["EDITS"]:
            t = open(d + "/" + f).read()
            if t.count(a) != 1: return i, "edit of %s: %d matches for %r" % (f, t.count(a), a)
            open(d + "/" + f, "w").write(t.replace(a, b))
        diff = sh("git diff -- " + " ".join(sorted({e[0] for e in g["EDITS"]})), d).stdout
        tmp = d + ".o"; shutil.rmtree(tmp, ignore_errors=True); os.makedirs(tmp)
        open(tmp + "/patch.diff", "w").write(diff)
        open(tmp + "/demo.sh", "w").write(g.get("DEMO", DEMO_C))
        for n, t in ({"t.c": g["C"]} if "C" in g else {}).items() | g.get("FILES", {}).items():
            open(tmp + "/" + n, "w").write(t)
        json.dump(dict(property=g["PROP"], needs=g["NEEDS"], what_it_breaks=g["BREAKS"]), open(tmp + "/meta.json", "w"), indent=1)
        r = sh("bash %s.s/build.sh" % d, d)
        if r.returncode: return i, "build: " + r.stdout[-800:]
        if sh("bash %s.s/test.sh %s.s/t.json" % (d, d), d).returncode and not os.path.exists(d + ".s/t.json"): return i, "tests did not run"
        base = json.load(open("/opt/vp/BASELINE.json")); base = set(base.get("passed") or base.get("stable"))
        got = set(json.load(open(d + ".s/t.json"))["passed"])
        if base - got: return i, "breaks tests: %s" % sorted(base - got)[:6]
        r = sh("bash %s/demo.sh" % tmp, d, timeout=300)
        if r.returncode == 0: return i, "demo passes with the bug"
        bad = r.stdout[-300:]
        subprocess.run(["git", "apply", "-R", tmp + "/patch.diff"], cwd=d, check=True)
        sh("bash %s.s/build.sh" % d, d)
        r = sh("bash %s/demo.sh" % tmp, d, timeout=300)
        if r.returncode: return i, "demo fails without the bug: " + r.stdout[-500:]
        shutil.rmtree(out, ignore_errors=True)
        shutil.copytree(tmp, out)
        return i, "kept"
    finally:
        for x in (d, d + ".s", d + ".o"): shutil.rmtree(x, ignore_errors=True)
def check(i, env={}):
    d = "/tmp/seedc-%s" % i
    copy(d)
    try:
        m = json.load(open("%s/%s/meta.json" % (S, i)))
        r = sh("git apply %s/%s/patch.diff" % (S, i), d)
        if r.returncode: return i, m["property"], "PATCH DOES NOT APPLY"
        r = sh("python3 checks/%s.py" % m["property"].lower(), V, env=dict(os.environ, TOYCC_REPO=d, VP_EVIDENCE=d + "/ev", **env))
        if r.returncode == 1 and "VIOLATION property=%s " % m["property"] in r.stdout: return i, m["property"], "caught"
        return i, m["property"], "MISSED rc=%d %s" % (r.returncode, r.stdout[-300:])
    finally: shutil.rmtree(d, ignore_errors=True)
if __name__ == "__main__":
    if sys.argv[1] == "add":
        for p in sys.argv[2:]:
            i, w = add(p)
            print(i, w, *(check(i)[1:] if w == "kept" else ()), flush=True)
    else:
        ids = sys.argv[2:] or sorted(os.listdir(S))
        for i in ids: print(*check(i), flush=True)
