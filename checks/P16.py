import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import mck
import concurrent.futures

GR = ["config", "monitoring", "io", "io_sdm", "shared"]


def body(c):
    with concurrent.futures.ThreadPoolExecutor(3) as ex:
        j = [ex.submit(mck.build_main, c, "files", "files.cpp", sdm=False),
             ex.submit(c.build, "vtkd", ["vtkfiles.cpp"], GR + ["mpi"], defs=["USE_SDM", "USE_MPI"], shim=("kokkos", "mpi")),
             ex.submit(c.build, "vtks", ["vtkfiles.cpp"], GR, defs=["USE_SDM"])]
        [x.result() for x in j]
    c.run("files", ["--mode", "vtk"], timeout=840)
    c.run("vtks", timeout=840)
    c.run("vtkd", timeout=840)
    c.rule = 'image files: every grid shape x encoding x bounds x name; unstructured files of every spectral difference degree; distributed: every process grid x shape x encoding x numbering of the processes, index file and pieces put together again'
    c.assumptions = ['values the format can carry (six digits in ascii)']


mck.main("P16", body)
