import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import mck
import concurrent.futures

UNITS = [(3, 2), (2, 3), (2, 2)]
GR = ["config", "monitoring", "io", "io_sdm", "shared", "muscl"]


def build(c):
    """the same solvers twice: with message passing (controlled scheduler) and the
    single-process reference"""
    u = [("sdm_unit.cpp", [f"-DSDIM={d}", f"-DSN={n}"], f"u{d}{n}") for d, n in UNITS]
    with concurrent.futures.ThreadPoolExecutor(2) as ex:
        a = ex.submit(c.build, "dist", ["dist.cpp"] + u, GR + ["mpi"], defs=["USE_SDM", "USE_MPI"], shim=("kokkos", "mpi"))
        b = ex.submit(c.build, "ref", ["dist_ser.cpp"] + u, GR, defs=["USE_SDM"])
        a.result(), b.result()
    os.environ["DIST_REF"] = c.exes["ref"]


def build_main(c):
    """the real main() on the message-passing model, and alone"""
    def hs(h):
        return [(mck.REPO + "/src/shared/SolverFactory.cpp", ["-O0"], "factory"), h, (mck.REPO + "/src/main.cpp", ["-Dmain=ppk_main"], "main")]
    gr = ["monitoring", "config", "io", "shared", "muscl"]
    with concurrent.futures.ThreadPoolExecutor(2) as ex:
        a = ex.submit(c.build, "dmain", hs("distmain.cpp"), gr + ["mpi"], defs=["USE_MPI"], shim=("kokkos", "mpi"))
        b = ex.submit(c.build, "smain", hs("smain.cpp"), gr)
        a.result(), b.result()
    os.environ["DIST_MAIN"] = c.exes["smain"]


def build_main_h5(c):
    """the real main() with parallel HDF5 on the message-passing model"""
    hs = [(mck.REPO + "/src/shared/SolverFactory.cpp", ["-O0"], "factory"), "distmain.cpp", (mck.REPO + "/src/main.cpp", ["-Dmain=ppk_main"], "main")]
    gr = ["monitoring", "config", "io", "io_hdf5", "shared", "muscl", "mpi"]
    c.build("dmainh", hs, gr, defs=["USE_MPI", "USE_HDF5"], shim=("kokkos", "mpi", "h5par"), incs=mck.H5INC, libs=mck.H5LIB)


def build_h5(c):
    """files written and read together by several processes"""
    c.build("h5d", ["h5files.cpp"], ["config", "monitoring", "io", "io_hdf5", "shared", "mpi"], defs=["USE_MPI", "USE_HDF5"], shim=("kokkos", "mpi", "h5par"), incs=mck.H5INC, libs=mck.H5LIB)


def build_nc(c):
    """parallel-netCDF files of several processes (with the address sanitizer: the writer keeps arrays of its own)"""
    c.build("ncd", ["ncfiles.cpp"], ["config", "monitoring", "io", "shared", "mpi"], defs=["USE_MPI", "USE_PNETCDF"], shim=("kokkos", "mpi", "pnetcdf"), flags=["-fsanitize=address"])
