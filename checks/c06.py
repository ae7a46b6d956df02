#!/usr/bin/env python3
from lib import *
import geninit

def body(ck):
    rng = ck.rng_for("init")
    n = quick(2, 20)
    objs = [geninit.make(rng, "auto") for _ in range(700 * n)] + [geninit.make(rng, "static") for _ in range(500 * n)] + \
           [geninit.make(rng, "flex") for _ in range(100 * n)]
    geninit.run_objs(ck, "init", objs)
    sy = geninit.systematic(rng, 2)
    if THOROUGH: sy += rng.sample(geninit.systematic(rng, 3), 12000)
    geninit.run_objs(ck, "systematic", sy)

if __name__ == "__main__":
    main("C06", body)
