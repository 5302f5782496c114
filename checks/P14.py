import os, sys
import concurrent.futures
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import distcheck, mck


def body(c):
    with concurrent.futures.ThreadPoolExecutor(2) as ex:
        for j in [ex.submit(mck.build_main, c, "files", "files.cpp", sdm=False), ex.submit(distcheck.build_main_h5, c)]:
            j.result()
    c.run("files", ["--mode", "restart"], timeout=840)
    c.run("dmainh", ["--mode", "restart"], timeout=840)
    c.rule = 'every saved output of every enumerated run and every chain of two restarts; distributed runs: every saved output, restarted on the same and on other process grids'
    c.assumptions = ['bitwise equality where the scheme keeps no memory outside the file', 'parallel HDF5 is modelled on the serial library']


mck.main("P14", body)
