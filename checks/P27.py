import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import sdmcheck, mck


def body(c):
    sdmcheck.build(c)
    c.run("sdm", ["--mode", "visc"], timeout=840)
    c.run("sdm", ["--mode", "rhs", "--visc", "1"], timeout=840)
    c.rule = "every order, dimension, integrator, boundary pairing and grid shape; flow patterns of four kinds; every uniform flow of an alphabet; every plane shear flow"
    c.assumptions = ["flows admissible at solution and flux points", "the Riemann solver of the oracle is the code's own (decided by P07)"]


mck.main("P27", body)
