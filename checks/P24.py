import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import mck, sdmcheck

FV = ["monitoring", "config", "io", "shared", "muscl"]


def body(c):
    a = ["--mode", "races"]
    c.build("fv", ["fv_more.cpp"], FV)
    c.build("fv0", ["fv_more.cpp"], FV, flags=["-ftrivial-auto-var-init=zero"])
    sdmcheck.build(c)
    sdmcheck.build(c, "sdm0", flags=["-ftrivial-auto-var-init=zero"])
    for e in ("fv", "sdm"):
        for z in ("", "0"):
            c.run(e + z, a, timeout=840)
        h, h0 = c.hashes.get((e, tuple(a)), {}), c.hashes.get((e + "0", tuple(a)), {})
        for k in sorted(h):
            if k in h0 and h[k] != h0[k]:
                c.viol("uninitialised", f"item {k}: the result depends on the content of uninitialised local variables", exe=e, args=a, item=-1)
        c.stats["n_uninit_compared"] = c.stats.get("n_uninit_compared", 0) + len(h)
    c.rule = "every kernel of construction and two steps: all pairs of iterations by footprint; forward, reverse, interleaved and shuffled iteration orders"
    c.assumptions = ["versions 1 and 2 of the MHD solver accumulate atomically: orders compared up to round-off"]


mck.main("P24", body)
