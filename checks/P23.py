import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import mck


def body(c):
    c.build("euler", ["euler.cpp"], ["monitoring", "config", "io", "shared"])
    c.run("euler", timeout=840)
    c.rule = "every state of a product alphabet of density, pressure, velocity, field and gamma"
    c.assumptions = ["states above the density and pressure floors for the equality with the equations"]


mck.main("P23", body)
