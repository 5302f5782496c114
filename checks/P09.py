import os, sys
import concurrent.futures
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import distcheck, mck


def body(c):
    with concurrent.futures.ThreadPoolExecutor(2) as ex:
        for j in [ex.submit(distcheck.build, c), ex.submit(distcheck.build_main, c)]:
            j.result()
    for m in ['num', 'sdm', 'prob', 'sdmprob']:
        c.run("dist", ["--mode", m], timeout=840)
    c.run("dmain", ["--mode", "out"], timeout=840)
    c.rule = 'every process grid up to 8 ranks x boundary combinations x solvers and options on patterned fields, and every initial condition, several steps; each under the default and reordered schedules; compared cell by cell (ghost cells included) and step by step with the single-process build of the same code'
    c.assumptions = ['equal local sizes on every rank (the code knows no other)']


mck.main("P09", body)
