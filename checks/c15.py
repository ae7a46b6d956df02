#!/usr/bin/env python3
from lib import *
import gensyn, gencond, genlex, pp

def body(ck):
    rng = ck.rng_for("pperr")
    pp.run_worlds(ck, "directives", [gencond.bad_world(rng) for _ in range(quick(2000, 20000))], errors=True)
    rng = ck.rng_for("lexerr")
    genlex.run_soup(ck, "characters", [genlex.soup(rng) for _ in range(quick(2000, 20000))], lines=True)
    if not os.environ.get("NOSYN"): gensyn.run_syn(ck, "syntax", gensyn.worlds(ck.rng_for("syn"), quick(1500, 15000)))

if __name__ == "__main__":
    main("C15", body)
