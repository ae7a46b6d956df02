#!/usr/bin/env python3
from lib import *
import genparse

def body(ck):
    rng = ck.rng_for("grammar")
    genparse.run(ck, "expr", [genparse.expr_prog(rng, k + 1) for k in range(quick(400, 5000))], genparse.expr_text)
    rng = ck.rng_for("decl")
    genparse.run(ck, "decl", [genparse.decl_prog(rng, k + 1) for k in range(quick(400, 5000))], genparse.decl_text)

if __name__ == "__main__":
    main("C19", body)
