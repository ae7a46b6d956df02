#!/usr/bin/env python3
from lib import *
import genptr, cprog

def body(ck):
    rng = ck.rng_for("ptr")
    n = quick(1, 12)
    cprog.model_and_replay(ck, "ptr", [genptr.ptr_prog(rng) for _ in range(350 * n)])
    cprog.model_and_replay(ck, "loop", [genptr.loop_prog(rng) for _ in range(80 * n)])
    cprog.model_and_replay(ck, "rec", [genptr.rec_prog(rng) for _ in range(60 * n)])
    cprog.model_and_replay(ck, "big", [genptr.big_prog(rng) for _ in range(48 * n)], chunk=8)

if __name__ == "__main__":
    main("C17", body)
