#!/usr/bin/env python3
from lib import *
import gencond, pp

def body(ck):
    ck.tlc("HashMap", cfg=quick("HashMapQuick.cfg", "HashMap.cfg"), name="HashMap: every reachable table, every hash function")
    hists = [json.loads(h) for h in ck.tlc("HashMap", cfg="HashMapHist.cfg", name="HashMap histories", workers=1)]
    rng = ck.rng_for("hist")
    rng.shuffle(hists)
    hists = hists[:quick(4000, len(hists))]
    ck.extra["enumerated_histories_replayed"] = len(hists)
    ws = [gencond.all_histories(rng, hists[i:i+40]) for i in range(0, len(hists), 40)]
    ws += [gencond.history_world(rng) for _ in range(quick(60, 600))]
    ws += [gencond.growth_world(rng, n) for n in quick([250, 500], [250, 500, 1000, 2000])]
    pp.run_worlds(ck, "table", ws)
    rng = ck.rng_for("cond")
    pp.run_worlds(ck, "cond", [gencond.cond_world(rng) for _ in range(quick(2000, 20000))])

if __name__ == "__main__":
    main("C09", body)
