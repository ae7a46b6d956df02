#!/usr/bin/env python3
from lib import *
import genlex

def body(ck):
    rng = ck.rng_for("lex")
    for n in range(quick(1, 6)):
        genlex.run_soup(ck, "soup%d" % n, [genlex.soup(rng) for _ in range(3000)])
        genlex.run_lits(ck, "lits%d" % n, [genlex.literal(rng) for _ in range(2500)])
        genlex.run_glued(ck, "glued%d" % n, [genlex.glued(rng) for _ in range(1000)])

if __name__ == "__main__":
    main("C11", body)
