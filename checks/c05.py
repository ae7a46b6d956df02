#!/usr/bin/env python3
from lib import *
import genlay, cprog

def body(ck):
    rng = ck.rng_for("lay")
    progs = [genlay.lay_prog(rng) for _ in range(quick(320, 5000))]
    cprog.model_and_replay(ck, "layout", progs)

if __name__ == "__main__":
    main("C05", body)
