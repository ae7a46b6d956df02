#!/usr/bin/env python3
from lib import *
import genflt, cprog

def body(ck):
    rng = ck.rng_for("float")
    cprog.model_and_replay(ck, "matrix", genflt.flt_matrix(rng, THOROUGH))
    cprog.model_and_replay(ck, "conv", genflt.conv_edges(rng))
    progs = [genflt.flt_prog(rng) for _ in range(quick(500, 6000))]
    cprog.model_and_replay(ck, "float", progs)

if __name__ == "__main__":
    main("C16", body)
