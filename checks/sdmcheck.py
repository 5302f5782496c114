import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import mck

UNITS = [(3, 4), (3, 3), (3, 2), (2, 6), (2, 5), (2, 4), (2, 3), (2, 2), (2, 1)]


def build(c, name="sdm", flags=(), opt="-O1"):
    h = [("sdm_unit.cpp", [f"-DSDIM={d}", f"-DSN={n}", opt], f"u{d}{n}") for d, n in UNITS]
    return c.build(name, h[:1] + ["sdm.cpp", "sdminit.cpp"] + h[1:], ["config", "monitoring", "io", "io_sdm", "shared", "muscl"], defs=["USE_SDM"], flags=flags)

