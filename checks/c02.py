#!/usr/bin/env python3
from lib import *
import genconst, cprog

def body(ck):
    rng = ck.rng_for("const")
    progs = [genconst.const_prog(rng, 10) for _ in range(quick(1200, 12000))]
    cprog.model_and_replay(ck, "const", progs)

if __name__ == "__main__":
    main("C02", body)
