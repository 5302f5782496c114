import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import sdmcheck, mck


def body(c):
    sdmcheck.build(c)
    for m in ['geom']:
        c.run("sdm", ["--mode", m], timeout=840)
    c.rule = 'all monomials of the tensor basis in every cell, direction and variable; every order and dimension'
    c.assumptions = []


mck.main("P19", body)
