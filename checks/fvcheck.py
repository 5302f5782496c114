import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import mck
FV = ["monitoring", "config", "io", "shared", "muscl"]


def run(pid, modes, assumptions, rule, src="fv_props.cpp", sdm=()):
    def body(c):
        c.build("fv", [src], FV)
        if sdm:
            import sdmcheck
            sdmcheck.build(c)
        for m in modes:
            c.run("fv", ["--mode", m], timeout=840)
        for m in sdm:
            c.run("sdm", ["--mode", m], timeout=840)
        c.assumptions = assumptions
        c.rule = rule
    mck.main(pid, body)
