#!/usr/bin/env python3
from lib import *
import geninc, pp

def body(ck):
    rng = ck.rng_for("inc")
    pp.run_worlds(ck, "inc", [geninc.world(rng) for _ in range(quick(2500, 25000))], errors={"not found"})

if __name__ == "__main__":
    main("C10", body)
