import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import mck
import concurrent.futures


def body(c):
    with concurrent.futures.ThreadPoolExecutor(2) as ex:
        j = [ex.submit(c.build, "params", ["params.cpp"], ["factory", "monitoring", "config", "io", "io_sdm", "shared", "muscl"], defs=["USE_SDM"], flags=["-O0"]),
             ex.submit(c.build, "bcast", ["bcast.cpp"], ["config", "monitoring", "shared", "io", "io_sdm", "mpi"], defs=["USE_MPI", "USE_SDM"], shim=("kokkos", "mpi"))]
        [x.result() for x in j]
    c.run("params", timeout=840)
    c.run("bcast", timeout=840)
    c.rule = 'every single setting, every pair (thorough: triple) and every solver name; distributed: every file length (0-300, around powers of two) x processes 1-8, every single setting on every process of every grid'
    c.assumptions = ['the parameter file exists']


mck.main("P18", body)
