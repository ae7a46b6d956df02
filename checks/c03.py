#!/usr/bin/env python3
from lib import *
import intmatrix, gensto, cprog

FORMS = [["asg", o] for o in ("", "+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>")] + [[k, o] for k in ("pre", "post") for o in "+-"]

def body(ck):
    intmatrix.matrix(ck, FORMS, list(range(9)), quick(0, 4), "asg")
    rng = ck.rng_for("store")
    progs = [gensto.sto_prog(rng, nst=rng.randint(6, 14)) for _ in range(quick(450, 6000))]
    cprog.model_and_replay(ck, "store", progs)
    rng = ck.rng_for("far")
    cprog.model_and_replay(ck, "far", [gensto.far_prog(rng) for _ in range(quick(80, 800))])

if __name__ == "__main__":
    main("C03", body)
