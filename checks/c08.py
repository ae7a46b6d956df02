#!/usr/bin/env python3
from lib import *
import genmac, pp

def body(ck):
    rng = ck.rng_for("macros")
    pp.run_worlds(ck, "macros", [genmac.mac_world(rng) for _ in range(quick(3000, 30000))])

if __name__ == "__main__":
    main("C08", body)
