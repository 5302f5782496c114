import os, sys
import concurrent.futures
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import distcheck, mck


def body(c):
    with concurrent.futures.ThreadPoolExecutor(2) as ex:
        for j in [ex.submit(mck.build_main, c, "files", "files.cpp", sdm=False), ex.submit(distcheck.build_h5, c)]:
            j.result()
    c.run("files", ["--mode", "hdf5"], timeout=840)
    c.run("h5d", timeout=840)
    c.rule = 'single process: every grid shape x ghost x compression x naming option x output history, whole runs; distributed: every process grid x shape x kind of ghost cells x layout x numbering of the processes, written together, read by every other decomposition of the same domain, upscaling included'
    c.assumptions = ['HDF5 implements its interface; parallel HDF5 is modelled on the serial library (collective calls and overlapping writes are checked)']


mck.main("P15", body)
