import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import mck


def body(c):
    c.build("riemann", ["riemann.cpp"], ["monitoring", "config", "io", "shared"])
    c.run("riemann", timeout=840)
    c.assumptions = ["states away from the density/pressure floors for the formula comparison", "Newton-based hydro solver compared to 3e-4 (it stops at 1e-6 in pressure), near-vacuum pairs excluded"]
    c.rule = 'every ordered pair of states of the alphabet through every Riemann solver, both dimensions'


mck.main("P07", body)
