import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import distcheck, mck


def body(c):
    distcheck.build(c)
    for m in ['topo']:
        c.run("dist", ["--mode", m], timeout=840)
    c.rule = 'every process grid, periodicity and boundary combination within the stated ranks'
    c.assumptions = []


mck.main("P11", body)
