#!/usr/bin/env python3
from lib import *
import genflow, cprog

def body(ck):
    rng = ck.rng_for("flow")
    progs = [genflow.flow_prog(rng, rng.choice([12, 25, 40])) for _ in range(quick(500, 8000))]
    cprog.model_and_replay(ck, "flow", progs)

if __name__ == "__main__":
    main("C04", body)
