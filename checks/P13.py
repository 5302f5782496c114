import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import mck


def body(c):
    mck.build_main(c, "cadence", "cadence.cpp")
    c.run("cadence", timeout=840)
    c.rule = 'every run of the product end time x start time x step limit x cadence x family'
    c.assumptions = ['single process; distributed runs share the driver loop']


mck.main("P13", body)
