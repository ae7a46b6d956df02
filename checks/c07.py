#!/usr/bin/env python3
from lib import *
import gencall

def body(ck):
    rng = ck.rng_for("call")
    ck.tlc("CallConvAll", quick("CallConvAll.cfg", "CallConvAllBig.cfg"))
    sigs = [gencall.sig(rng) for _ in range(quick(1500, 12000))]
    for g in range(10):
        for f in range(0, 10, 1):
            for _ in range(quick(10, 60)): sigs.append(gencall.sig(rng, fill=(g, f)))
    for n in range(0, len(sigs), 2000):
        gencall.run_sigs(ck, "calls%d" % (n // 2000), sigs[n:n + 2000])

if __name__ == "__main__":
    main("C07", body)
