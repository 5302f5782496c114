import os, sys
import concurrent.futures
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import distcheck, mck

EXPECTED = {"sendsend:deadlock", "sendbarrier:deadlock", "any:result"}


def selftest(c):
    """the explorer against programs whose answer is known"""
    c.build("selftest", ["mpi_selftest.cpp"], [], shim=("kokkos", "mpi"))
    rc, out, err = c._run1(c.exes["selftest"], [], 300, c.work + "/cwd_self")
    got = {l.split(" ", 2)[2].split("|", 1)[0] for l in out.splitlines() if l.startswith("VIOL ")}
    if got != EXPECTED or "DONE" not in out.splitlines():
        raise RuntimeError(f"the explorer is wrong about its test programs: {got} rc {rc} {err[-500:]}")


def body(c):
    with concurrent.futures.ThreadPoolExecutor(3) as ex:
        for j in [ex.submit(distcheck.build, c), ex.submit(distcheck.build_main, c), ex.submit(selftest, c)]:
            j.result()
    c.run("dist", ["--mode", "sched"], timeout=840)
    c.run("dmain", ["--mode", "sched"], timeout=840)
    c.rule = 'every state of the model of the recorded rank programs (rendezvous; buffered sends and early-released collectives up to 4 ranks), each model bound to the code by replaying its schedules on it (policies; every single departure up to 3 ranks) and comparing calls, matchings and results; solver steps of every family and whole runs of main()'
    c.assumptions = ['MPI implements its standard', 'non-overtaking order per pair, tag and communicator', 'reductions are evaluated in rank order']


mck.main("P10", body)
