import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import mck, sdmcheck


def body(c):
    c.build("init", ["init.cpp"], ["monitoring", "config", "io", "shared", "muscl"])
    sdmcheck.build(c)
    c.run("init", timeout=840)
    c.run("sdm", ["--mode", "init"], timeout=840)
    c.rule = 'every built-in problem of every solver and order x shape x domain x parameter value; thorough: every pair of parameters'
    c.assumptions = ['random perturbations: only their amplitude; disk cells on the axis excluded']


mck.main("P25", body)
