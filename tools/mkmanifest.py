#!/usr/bin/env python3
"""Writes MANIFEST.json. A property is claimed when checks/<id>.py exists."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {
"C01": ("TLA+ (CTypes/IntMatrix/CExpr/CMachine) checked with TLC; exhaustive operator x type x value matrix and random expression programs replayed on the compiler", 
        "TLC enumerates the whole operator x type-pair x boundary-value matrix and evaluates random expression programs; every result is compared with the compiled program run under qemu. Trusts the specification, qemu, gcc as assembler/linker."),
}
def main():
    exec(open(V + "/tools/notes.py").read(), globals()) if os.path.exists(V + "/tools/notes.py") else None
    props = [json.loads(l) for l in open(V + "/properties.jsonl")]
    checks, na = [], []
    for p in props:
        i = p["id"]
        f = "checks/%s.py" % i.lower()
        if os.path.exists(os.path.join(V, f)):
            t, n = NOTE[i]
            checks.append(dict(property=i, quick_cmd="VERIF_TIER=quick python3 " + f, thorough_cmd="VERIF_TIER=thorough python3 " + f,
                               evidence_file="evidence/%s.json" % i, technique=t, level="model_checking", level_note=n))
        else:
            na.append(dict(property=i, reason=NA.get(i, "check not built yet")))
    m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na,
             notes="No hooks in /repo: the checks observe the compiler only through its command line and its output.")
    json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
NA = {}
main()
