#!/usr/bin/env python3
from lib import *
import genscope

def body(ck):
    rng = ck.rng_for("scope")
    genscope.run_scopes(ck, "scopes", [genscope.World(rng) for _ in range(quick(2500, 20000))], rng.randrange(1 << 30))

if __name__ == "__main__":
    main("C12", body)
