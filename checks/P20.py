import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import sdmcheck, mck


def body(c):
    sdmcheck.build(c)
    for m in ['step', 'sym', 'rhs']:
        c.run("sdm", ["--mode", m], timeout=840)
    c.rule = 'every order, dimension, integrator, Riemann solver, limiter/positivity switch; four kinds of flow, every single-point disturbance, every uniform flow of an alphabet, all symmetry generators, every boundary pairing'
    c.assumptions = ['flows admissible at solution and flux points', "the Riemann solver of the spatial oracle is the code's own (decided by P07)"]


mck.main("P20", body)
