import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import sdmcheck, mck


def body(c):
    sdmcheck.build(c)
    for m in ['rk']:
        c.run("sdm", ["--mode", m], timeout=840)
    c.rule = 'every integrator, order, dimension, boundary pairing, limiter/positivity/viscosity switch'
    c.assumptions = ["the stage right-hand sides are the code's own (decided by P20 and P27)"]


mck.main("P21", body)
