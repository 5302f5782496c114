import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import sdmcheck, mck


def body(c):
    sdmcheck.build(c)
    for m in ['lim', 'posit']:
        c.run("sdm", ["--mode", m], timeout=840)
    c.rule = 'limiter: four kinds of flow and linear flows; positivity: every disturbance of every point by an alphabet of density, energy and momentum amplitudes, alone and compensated'
    c.assumptions = ['cell means admissible', "flows within 1e-11 of the limiter's threshold excluded from the comparison with the oracle"]


mck.main("P22", body)
